\* Drawings much longer than wide, and canvases likewise.
CONSTANTS Xs = {0, 1}
          Ys = {0, 20000}
          MaxPoints = 3
          MaxPaths = 1
          Widths = {1, 500}
          Heights = {30000, 500, 10}
SPECIFICATION GSpec
INVARIANTS Tightest InsideCanvas Centred Upright AsLargeAsPossible Emit
CHECK_DEADLOCK FALSE
