CONSTANTS Syms = {"A", "B"}
          MaxCtx = 1
          MaxBody = 1
          MaxProds = 2
          MaxLen = 3
          Iters = 1
          MaxStr = 30
SPECIFICATION Spec
INVARIANTS Cut Emit
CHECK_DEADLOCK FALSE
