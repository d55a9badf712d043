CONSTANTS Quarter = 90
SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
