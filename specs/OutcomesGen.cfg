CONSTANTS Syms = {"A", "B"}
          Unit = 2
          Chances = {0, 1, 2, 3}
          MaxCtx = 0
          MaxBody = 1
          MaxBodies = 2
          MaxProds = 1
          MaxLen = 2
          Iters = {1, 2, 3}
          MaxOutcomes = 24
          MaxDen = 4096
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
