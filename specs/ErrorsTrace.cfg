CONSTANTS Messages = {}
          MaxOps = 100000
SPECIFICATION TSpec
INVARIANTS Passed
CHECK_DEADLOCK FALSE
