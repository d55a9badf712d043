SPECIFICATION Spec
CONSTANT Unit = 4
CONSTANT Values = {0, 1, 2, 3, 5}
CONSTANT MaxLen = 4
CONSTANT OnlySum = 0
CONSTANT Starts <- Nothing
INVARIANT Sums
PROPERTY ErrorStays
ACTION_CONSTRAINT Show
CHECK_DEADLOCK FALSE
