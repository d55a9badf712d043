SPECIFICATION Spec
CONSTANT Threads = {1, 2}
CONSTANT MaxOps = 2
INVARIANT Closed
INVARIANT OneRulePerHead
INVARIANT OneSet
INVARIANT Exclusive
PROPERTY Grows
PROPERTY Refines
PROPERTY Returns
