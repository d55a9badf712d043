CONSTANTS Syms = {"A", "B"}
          Bodies <- MCBodies
          Ctxs <- MCCtxs
          MaxProds = 2
          MaxLen = 3
          MaxIter = 2
          MaxStr = 12
SPECIFICATION Spec
INVARIANTS ScanIsPrefix IterationsCount Result EmptyStaysEmpty Untouched
PROPERTIES Atomic Finishes
CHECK_DEADLOCK FALSE
