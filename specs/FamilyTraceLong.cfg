SPECIFICATION Spec
CONSTANT Names <- Numbered
CONSTANT Contents = {}
CONSTANT Blank = {}
INVARIANT Accepted
PROPERTY NeverReplaced
CHECK_DEADLOCK FALSE
