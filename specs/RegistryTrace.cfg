SPECIFICATION Spec
CONSTANT Blank = {"blank"}
CONSTANT Judge = "all"
INVARIANT Accepted
CHECK_DEADLOCK FALSE
