----------------------------- MODULE TextTrace -----------------------------
(* The recorded outcomes of the entry points: each must be a Return of Text.  *)
EXTENDS Text, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, k
Ev == Trace[i]
TInit == Init /\ i = 1 /\ k = 1
Steps == k <= Len(Ev.got) /\ Call /\ UNCHANGED <<i, k>>
Returns == k <= Len(Ev.got) /\ Return(Ev.got[k]) /\ UNCHANGED <<i, k>>
Again == call \in {"ok", "error"} /\ k' = k + 1 /\ call' = "none" /\ UNCHANGED <<text, i>>
NextRecord == i' = i + 1 /\ k' = 1 /\ call' = "none" /\ UNCHANGED text
Ends == k > Len(Ev.got) /\ PrintT("@@ACC " \o ToString(i)) /\ NextRecord
Rejects == call = "pending" /\ ~ENABLED Return(Ev.got[k])
           /\ PrintT("@@REJ " \o ToString(i) \o " entry point " \o ToString(k)) /\ NextRecord
TNext == i <= Len(Trace) /\ (Steps \/ Returns \/ Again \/ Ends \/ Rejects)
TSpec == TInit /\ [][TNext]_<<vars, i, k>>
=============================================================================
