----------------------------- MODULE ErrorsTrace ----------------------------
(* Recorded programs over errors, both read after every step.                  *)
EXTENDS Errors, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, k
Hist == Trace[i].h
Ev == Hist[k]
TInit == Init /\ i = 1 /\ k = 1
Accepts == k <= Len(Hist) /\ Do(Ev.o, Ev.x) /\ Ev.err = Seen(err') /\ Ev.other = Seen(other') /\ k' = k + 1 /\ UNCHANGED i
Reset == err' = Unspecified /\ other' = Unspecified /\ log' = <<>> /\ k' = 1 /\ i' = i + 1
Rejects == k <= Len(Hist) /\ ~ENABLED Accepts /\ Reset /\ PrintT("@@REJ " \o ToString(i) \o " at operation " \o ToString(k) \o " " \o Ev.o)
Ends == k > Len(Hist) /\ Reset /\ PrintT("@@ACC " \o ToString(i))
TNext == i <= Len(Trace) /\ (Accepts \/ Rejects \/ Ends)
TSpec == TInit /\ [][TNext]_<<vars, i, k>>
=============================================================================
