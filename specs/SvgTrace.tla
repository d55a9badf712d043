------------------------------ MODULE SvgTrace ------------------------------
(* Recorded documents of drawings: the drawing is read with the actions of     *)
(* Bounds, then the document is compared with what Svg says about it.          *)
(* Ev.again[m] says how many times more the m-th path goes through the same    *)
(* points.                                                                     *)
EXTENDS Svg, TLC, Json, IOUtils
CONSTANT Obs                    \* "fit" or "document"
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, m, k
Ev == Trace[i]
TInit == Init /\ i = 1 /\ m = 1 /\ k = 1 /\ canvas = [w |-> 0, h |-> 0]
Loads == canvas.w = 0 /\ canvas' = [w |-> Ev.w, h |-> Ev.h] /\ UNCHANGED <<paths, box, i, m, k>>
Opens == canvas.w # 0 /\ m <= Len(Ev.paths) /\ Len(paths) < m /\ NewPath /\ UNCHANGED <<canvas, i, m, k>>
Reads == /\ m <= Len(Ev.paths) /\ Len(paths) = m /\ k <= Len(Ev.paths[m])
         /\ AddPoint(Ev.paths[m][k][1], Ev.paths[m][k][2]) /\ k' = k + 1 /\ UNCHANGED <<canvas, i, m>>
Closes == /\ m <= Len(Ev.paths) /\ Len(paths) = m /\ k > Len(Ev.paths[m]) /\ m' = m + 1 /\ k' = 1 /\ UNCHANGED <<i, paths, canvas>>
          /\ box' = AgainBox(box, paths[m], Ev.again[m])
Points(a) == (Ev.again[a] + 1) * Len(paths[a])
Pt(a, b) == paths[a][((b - 1) % Len(paths[a])) + 1]
Near(x, y) == x - y \in -5..5
Fits == /\ Ev.doc.wellformed /\ Ev.doc.finite
        /\ Len(Ev.doc.img) = Len(paths)
        /\ \A a \in 1..Len(paths) :
             /\ Len(Ev.doc.img[a]) = Points(a)
             /\ \A b \in 1..Points(a) :
                  LET p == Image(Pt(a, b)) IN Near(Ev.doc.img[a][b][1], p[1]) /\ Near(Ev.doc.img[a][b][2], p[2])
Contains == /\ Ev.doc.wellformed
            /\ Doc.w = Ev.doc.w /\ Doc.h = Ev.doc.h
            /\ Len(Ev.doc.paths) = Len(paths) /\ Len(Ev.doc.cmds) = Len(paths)
            /\ \A a \in 1..Len(paths) :
                 /\ Ev.doc.paths[a] = [b \in 1..Points(a) |-> Pt(a, b)]
                 /\ Ev.doc.cmds[a] = [b \in 1..Points(a) |-> IF b = 1 THEN "M" ELSE "L"]
            /\ Ev.saved = "same"
Agrees == IF Obs = "fit" THEN Fits ELSE Contains
Judge == /\ canvas.w # 0 /\ m > Len(Ev.paths)
         /\ PrintT(IF Agrees THEN "@@ACC " \o ToString(i) ELSE "@@REJ " \o ToString(i))
         /\ i' = i + 1 /\ m' = 1 /\ k' = 1 /\ paths' = <<>> /\ box' = None /\ canvas' = [w |-> 0, h |-> 0]
TNext == i <= Len(Trace) /\ (Loads \/ Opens \/ Reads \/ Closes \/ Judge)
TSpec == TInit /\ [][TNext]_<<svars, i, m, k>>
=============================================================================
