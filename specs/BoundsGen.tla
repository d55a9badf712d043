------------------------------ MODULE BoundsGen ------------------------------
EXTENDS Bounds, TLC, Json
CONSTANTS Xs, Ys, MaxPoints, MaxPaths, Agains
GNext == \/ Len(paths) < MaxPaths /\ NewPath
         \/ box.n < MaxPoints /\ \E x \in Xs, y \in Ys : AddPoint(x, y)
         \/ box.n \in 1..MaxPoints /\ \E k \in Agains : Again(k)
GSpec == Init /\ [][GNext]_vars
Emit == PrintT("@@" \o ToJson([paths |-> paths, box |-> box]))
=============================================================================
