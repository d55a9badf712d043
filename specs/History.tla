------------------------------ MODULE History ------------------------------
(* Concurrent histories of the real code, judged against an atomic            *)
(* specification. A history is a list of calls (with their results) and the   *)
(* order of their invocations (k) and returns (-k). It is accepted when the   *)
(* calls can be taken one at a time, each between its invocation and its      *)
(* return, with the results they had.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i,      \* which history
          pos,    \* next event
          open,   \* calls that were invoked and have not taken effect
          took    \* calls that have taken effect and have not returned
hvars == <<i, pos, open, took>>

HInit == i \in 1..Len(Hist) /\ pos = 1 /\ open = {} /\ took = {}
Ev == Hist[i].ev
Call(k) == Hist[i].ops[k]
Ended == pos > Len(Ev)

Invoke == ~Ended /\ Ev[pos] > 0 /\ pos' = pos + 1 /\ open' = open \cup {Ev[pos]} /\ UNCHANGED <<i, took>>
Return == ~Ended /\ Ev[pos] < 0 /\ -Ev[pos] \in took /\ pos' = pos + 1 /\ took' = took \ {-Ev[pos]} /\ UNCHANGED <<i, open>>
\* It is enough to let calls take effect when a return is waiting for it.
Awaited == ~Ended /\ Ev[pos] < 0 /\ -Ev[pos] \in open
Took(k) == open' = open \ {k} /\ took' = took \cup {k} /\ UNCHANGED <<i, pos>>

Accepted == pos = Len(Ev) + 1 => PrintT("@@ACC " \o ToString(i))
=============================================================================
