----------------------------- MODULE PartsTrace -----------------------------
(* Recorded programs over two productions.                                     *)
EXTENDS Parts, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, k
Hist == Trace[i].h
Ev == Hist[k]
TInit == Init /\ i = 1 /\ k = 1
Agrees == /\ Ev.p = p' /\ Ev.q = q' /\ Ev.same = Same'
          /\ Ev.ps = Symbols(p') /\ Ev.qs = Symbols(q')
          /\ Ev.refused = (Ev.o = "refuse")
Accepts == k <= Len(Hist) /\ Do(Ev.o, Ev.x) /\ Agrees /\ k' = k + 1 /\ UNCHANGED i
Reset == p' = Start /\ q' = Start /\ log' = <<>> /\ k' = 1 /\ i' = i + 1
Rejects == k <= Len(Hist) /\ ~ENABLED Accepts /\ Reset /\ PrintT("@@REJ " \o ToString(i) \o " at operation " \o ToString(k) \o " " \o Ev.o)
Ends == k > Len(Hist) /\ Reset /\ PrintT("@@ACC " \o ToString(i))
TNext == i <= Len(Trace) /\ (Accepts \/ Rejects \/ Ends)
TSpec == TInit /\ [][TNext]_<<vars, i, k>>
=============================================================================
