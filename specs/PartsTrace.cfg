CONSTANTS Heads = {}
          Strings = {}
          Chances = {}
          BadChances = {}
          MaxOps = 100000
SPECIFICATION TSpec
INVARIANTS AtLeastOneBody
CHECK_DEADLOCK FALSE
