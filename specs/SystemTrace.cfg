SPECIFICATION Spec
INVARIANT Accepted
INVARIANT Closed
INVARIANT OneRulePerHead
CHECK_DEADLOCK FALSE
