SPECIFICATION Spec
CONSTANT Names = {"x", "y"}
CONSTANT Contents = {}
CONSTANT Blank = {}
CONSTANT Threads = {1, 2}
CONSTANT MaxOps = 2
INVARIANT RanCounts
INVARIANT SameForAll
PROPERTY NeverReplaced
PROPERTY Refines
PROPERTY Returns
