CONSTANTS Fragments = {"w", "s"}
          MaxLen = 3
SPECIFICATION Spec
PROPERTY EveryCallReturns
CHECK_DEADLOCK FALSE
