CONSTANTS Xs = {0, 1, 3}
          Ys = {0, 2, 3}
          MaxPoints = 3
          MaxPaths = 2
          Widths = {500, 120}
          Heights = {300, 77}
SPECIFICATION GSpec
INVARIANTS Tightest InsideCanvas Centred Upright Undistorted AsLargeAsPossible Emit
CHECK_DEADLOCK FALSE
