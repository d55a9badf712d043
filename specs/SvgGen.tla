------------------------------- MODULE SvgGen -------------------------------
EXTENDS Svg, TLC, Json
CONSTANTS Xs, Ys, MaxPoints, MaxPaths, Widths, Heights
GInit == Init /\ canvas \in [w : Widths, h : Heights]
GNext == /\ \/ Len(paths) < MaxPaths /\ NewPath
            \/ box.n < MaxPoints /\ \E x \in Xs, y \in Ys : AddPoint(x, y)
         /\ UNCHANGED canvas
GSpec == GInit /\ [][GNext]_svars
Emit == PrintT("@@" \o ToJson([w |-> canvas.w, h |-> canvas.h, paths |-> paths,
          img |-> [m \in 1..Len(paths) |-> [n \in 1..Len(paths[m]) |-> Image(paths[m][n])]]]))
=============================================================================
