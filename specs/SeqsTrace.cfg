CONSTANTS Elems = {}
          MaxList = 0
          MaxOps = 100000
SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
