CONSTANT Obs = "fit"
SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
