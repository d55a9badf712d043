CONSTANTS Counts = {}
          Angles = {}
          Sizes = {}
          MaxOps = 100000
SPECIFICATION TSpec
INVARIANTS DefaultsAgree
CHECK_DEADLOCK FALSE
