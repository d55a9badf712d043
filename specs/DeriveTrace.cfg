CONSTANTS Syms = {}
          Bodies = {}
          Ctxs = {}
          MaxProds = 0
          MaxLen = 0
          MaxIter = 0
          MaxStr = 0
SPECIFICATION TSpec
INVARIANT ShortScanIsPrefix
CHECK_DEADLOCK FALSE
