CONSTANTS Texts = {}
          Numbers = {}
          Radii = {}
          Points = {}
          MaxOps = 100000
SPECIFICATION TSpec
INVARIANTS ReadsBack Once Absent
CHECK_DEADLOCK FALSE
