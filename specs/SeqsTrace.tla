----------------------------- MODULE SeqsTrace ------------------------------
(* Recorded programs over two long strings or paths; after every operation     *)
(* both were read in every way there is.                                       *)
EXTENDS Seqs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, k
Hist == Trace[i].h
Ev == Hist[k]
TInit == Init /\ i = 1 /\ k = 1
Agrees == Ev.a = a' /\ Ev.b = b' /\ Ev.same = (a' = b')
Accepts == k <= Len(Hist) /\ Do(Ev.o, Ev.x) /\ Agrees /\ k' = k + 1 /\ UNCHANGED i
Reset == a' = <<>> /\ b' = <<>> /\ log' = <<>> /\ k' = 1 /\ i' = i + 1
Rejects == k <= Len(Hist) /\ ~ENABLED Accepts /\ Reset /\ PrintT("@@REJ " \o ToString(i) \o " at operation " \o ToString(k) \o " " \o Ev.o)
Ends == k > Len(Hist) /\ Reset /\ PrintT("@@ACC " \o ToString(i))
TNext == i <= Len(Trace) /\ (Accepts \/ Rejects \/ Ends)
TSpec == TInit /\ [][TNext]_<<vars, i, k>>
=============================================================================
