SPECIFICATION Spec
CONSTANT Names = {"x", "y"}
CONSTANT Contents = {}
CONSTANT Blank = {}
INVARIANT Accepted
PROPERTY NeverReplaced
CHECK_DEADLOCK FALSE
