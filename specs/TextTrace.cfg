CONSTANTS Fragments = {}
          MaxLen = 0
SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
