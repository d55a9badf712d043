--------------------------- MODULE PipelineTrace ---------------------------
(* Recorded pictures of longer descriptions: each is read, rewritten and drawn *)
(* with the actions of Pipeline; then the document is compared.               *)
EXTENDS Pipeline, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Ev == Trace[i]
TInit == PInit /\ i = 1
TRead == Len(lines) < Len(Ev.lines) /\ ReadLine(Ev.lines[Len(lines) + 1]) /\ UNCHANGED i
TWork == Len(lines) = Len(Ev.lines) /\ Work /\ UNCHANGED i
Near(x, y) == x - y \in -5..5
Same(p) == /\ Len(p) = Len(Ev.doc.segs)
           /\ \A m \in 1..Len(p) : \A e, c \in {1, 2} : Near(p[m][e][c], Ev.doc.segs[m][e][c])
Shows == /\ Ev.doc.wellformed /\ Ev.doc.finite /\ Ev.doc.w = Ev.w /\ Ev.doc.h = Ev.h
         /\ IF segs = <<>> THEN Ev.doc.segs = <<>> ELSE \E p \in Fits(Ev.w, Ev.h) : Same(p)
Agrees == IF phase = "refused" THEN Ev.v = "error" ELSE Ev.v = "ok" /\ Shows
Judge == /\ Over
         /\ PrintT(IF Agrees THEN "@@ACC " \o ToString(i) ELSE "@@REJ " \o ToString(i) \o " " \o phase \o " with " \o ToString(Len(segs)) \o " segments")
         /\ i' = i + 1 /\ lines' = <<>> /\ n' = "2" /\ delta' = "5" /\ axiom' = <<>> /\ prods' = <<>> /\ bad' = FALSE
         /\ phase' = "reading" /\ cur' = <<>> /\ done' = 0 /\ k' = 1 /\ pos' = <<0, 0>> /\ hd' = 0 /\ stack' = <<>> /\ segs' = <<>>
TNext == i <= Len(Trace) /\ (TRead \/ TWork \/ Judge)
TSpec == TInit /\ [][TNext]_<<all, i>>
=============================================================================
