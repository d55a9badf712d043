CONSTANTS Xs = {0, 1, 3}
          Ys = {0, 2, 3}
          MaxPoints = 3
          MaxPaths = 3
          Agains = {}
SPECIFICATION GSpec
INVARIANTS Tightest Emit
CHECK_DEADLOCK FALSE
