CONSTANTS Syms = {"A", "B"}
          W = 1
          MaxRun = 4
          MaxRuns = 3
          MaxBody = 2
          MaxProds = 1
SPECIFICATION Spec
INVARIANTS StepAgrees HitsAgree
CHECK_DEADLOCK FALSE
