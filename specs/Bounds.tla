------------------------------- MODULE Bounds -------------------------------
(* Collections of paths, point by point, and the box around them: what it is   *)
(* (Box, declarative) and how one pass keeps it (box, the running box).        *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES paths, box
vars == <<paths, box>>
None == [n |-> 0]
Init == paths = <<>> /\ box = None
Min(x, y) == IF x < y THEN x ELSE y
Max(x, y) == IF x > y THEN x ELSE y
NewPath == paths' = Append(paths, <<>>) /\ UNCHANGED box
AddPoint(x, y) ==
  /\ paths # <<>>
  /\ paths' = [paths EXCEPT ![Len(paths)] = Append(@, <<x, y>>)]
  /\ box' = IF box.n = 0 THEN [n |-> 1, minx |-> x, maxx |-> x, miny |-> y, maxy |-> y, sx |-> x, sy |-> y]
            ELSE [n |-> box.n + 1, minx |-> Min(box.minx, x), maxx |-> Max(box.maxx, x),
                  miny |-> Min(box.miny, y), maxy |-> Max(box.maxy, y), sx |-> box.sx + x, sy |-> box.sy + y]

\* The last path is gone through k more times, from its first point to its last:
\* the box is the same, and all its points count again.
RECURSIVE Total(_, _, _)
Total(p, n, d) == IF n = 0 THEN 0 ELSE p[n][d] + Total(p, n - 1, d)
AgainBox(b, p, k) == IF p = <<>> THEN b
                     ELSE [b EXCEPT !.n = @ + k * Len(p), !.sx = @ + k * Total(p, Len(p), 1), !.sy = @ + k * Total(p, Len(p), 2)]
Again(k) == /\ paths # <<>>
            /\ LET p == paths[Len(paths)] IN
               /\ paths' = [paths EXCEPT ![Len(paths)] = [n \in 1..(k + 1) * Len(p) |-> p[((n - 1) % Len(p)) + 1]]]
               /\ box' = AgainBox(box, p, k)

\* The points with their places, so that equal points count each.
Places == UNION {{<<m, n>> : n \in 1..Len(paths[m])} : m \in 1..Len(paths)}
At(q) == paths[q[1]][q[2]]
Inside(b) == \A q \in Places : At(q)[1] \in b.minx..b.maxx /\ At(q)[2] \in b.miny..b.maxy
RECURSIVE Sum(_, _)
Sum(qs, d) == IF qs = {} THEN 0 ELSE LET q == CHOOSE q \in qs : TRUE IN At(q)[d] + Sum(qs \ {q}, d)
\* The tightest box around all points: it contains them, and no side can move inwards.
Tightest ==
  /\ box.n = Cardinality(Places)
  /\ box.n > 0 =>
       /\ Inside(box)
       /\ ~Inside([box EXCEPT !.minx = @ + 1]) /\ ~Inside([box EXCEPT !.maxx = @ - 1])
       /\ ~Inside([box EXCEPT !.miny = @ + 1]) /\ ~Inside([box EXCEPT !.maxy = @ - 1])
       /\ box.sx = Sum(Places, 1) /\ box.sy = Sum(Places, 2)
=============================================================================
