SPECIFICATION Spec
CONSTANT Domain = "codes"
CONSTANT MaxThreads = 2
CONSTANT MaxPer = 2
CONSTANT MaxTotal = 4
ACTION_CONSTRAINT Show
CHECK_DEADLOCK FALSE
