----------------------------- MODULE BoundsTrace -----------------------------
(* Recorded bounds of large collections, judged after reading them point by    *)
(* point with the actions of Bounds.  Ev.again[m] says how many times more the *)
(* m-th path goes through the same points.                                     *)
EXTENDS Bounds, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, m, k
Ev == Trace[i]
TInit == Init /\ i = 1 /\ m = 1 /\ k = 1
Opens == m <= Len(Ev.paths) /\ Len(paths) < m /\ NewPath /\ UNCHANGED <<i, m, k>>
Reads == /\ m <= Len(Ev.paths) /\ Len(paths) = m /\ k <= Len(Ev.paths[m])
         \* the collection itself is Ev.paths: only the running box is kept here
         /\ AddPoint(Ev.paths[m][k][1], Ev.paths[m][k][2]) /\ k' = k + 1 /\ UNCHANGED <<i, m>>
Closes == /\ m <= Len(Ev.paths) /\ Len(paths) = m /\ k > Len(Ev.paths[m]) /\ m' = m + 1 /\ k' = 1 /\ UNCHANGED <<i, paths>>
          \* (Again, but for the points themselves, which may be very many)
          /\ box' = AgainBox(box, paths[m], Ev.again[m])
\* The recorded box has everything doubled (centre) or multiplied by n (centre of mass).
Agrees == IF box.n = 0 THEN Ev.v = "none"
          ELSE /\ Ev.v = "some"
               /\ Ev.box = <<box.minx, box.maxx, box.miny, box.maxy>>
               /\ Ev.size = <<box.maxx - box.minx, box.maxy - box.miny>>
               /\ Ev.centre2 = <<box.minx + box.maxx, box.miny + box.maxy>>
               /\ Ev.comn = <<box.sx, box.sy>>
Judge == /\ m > Len(Ev.paths)
         /\ PrintT(IF Agrees THEN "@@ACC " \o ToString(i) ELSE "@@REJ " \o ToString(i) \o " the box is " \o ToString(box))
         /\ i' = i + 1 /\ m' = 1 /\ k' = 1 /\ paths' = <<>> /\ box' = None
TNext == i <= Len(Trace) /\ (Opens \/ Reads \/ Closes \/ Judge)
TSpec == TInit /\ [][TNext]_<<vars, i, m, k>>
=============================================================================
