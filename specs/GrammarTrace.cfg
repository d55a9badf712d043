CONSTANTS Terms = {}
          MaxLen = 1000000
SPECIFICATION TSpec
INVARIANT MachineIsDeclared
CHECK_DEADLOCK FALSE
