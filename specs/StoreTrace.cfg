CONSTANTS Stores <- Three
          Starts <- StartsThree
          Names = {}
          Productions = {}
          Malformed = {}
          MaxOps = 100000
          Probes = {}
          Obs = {"symbols", "productions", "own"}
SPECIFICATION TSpec
INVARIANTS FewOneEntryPerHead
CHECK_DEADLOCK FALSE
