---------------------------- MODULE SettingsTrace ---------------------------
(* Recorded programs over interpretations and run settings, all that can be    *)
(* asked of them asked after every step.                                       *)
EXTENDS Settings, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, k
Hist == Trace[i].h
Ev == Hist[k]
TInit == Init /\ i = 1 /\ k = 1
SetOf(s) == {s[j] : j \in 1..Len(s)}
Shows(e, x) == Len(e.alphabet) = Cardinality(SetOf(e.alphabet)) /\ [e EXCEPT !.alphabet = SetOf(e.alphabet)] = Seen(x)
Agrees == Shows(Ev.it, it') /\ Shows(Ev.other, other') /\ Ev.rs = rs'
Accepts == k <= Len(Hist) /\ Do(Ev.o, Ev.x) /\ Agrees /\ k' = k + 1 /\ UNCHANGED i
Reset == it' = ATurtle /\ other' = Null /\ rs' = "ten" /\ log' = <<>> /\ k' = 1 /\ i' = i + 1
Rejects == k <= Len(Hist) /\ ~ENABLED Accepts /\ Reset /\ PrintT("@@REJ " \o ToString(i) \o " at operation " \o ToString(k) \o " " \o Ev.o)
Ends == k > Len(Hist) /\ Reset /\ PrintT("@@ACC " \o ToString(i))
TNext == i <= Len(Trace) /\ (Accepts \/ Rejects \/ Ends)
TSpec == TInit /\ [][TNext]_<<vars, i, k>>
=============================================================================
