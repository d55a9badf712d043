CONSTANT Angles = FALSE
SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
