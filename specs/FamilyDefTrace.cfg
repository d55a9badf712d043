CONSTANTS Names = {}
          Descriptions = {}
          MaxDefs = 100000
SPECIFICATION TSpec
INVARIANT AlphabetIsDefinedWhenFew
CHECK_DEADLOCK FALSE
