---------------------------- MODULE DeriveTrace ----------------------------
(* Recorded matches and derivations of the real code.  A derivation is carried *)
(* out with Derive's own actions and its outcome compared with the recorded.   *)
EXTENDS Derive, DeriveRuns, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, loaded
Ev == Trace[i]
tvars == <<vars, i, loaded>>

Blank == ps = <<>> /\ orig = <<>> /\ want = 0 /\ cur = <<>> /\ pos = 0 /\ out = <<>> /\ done = 0
TInit == Blank /\ i = 1 /\ loaded = FALSE
Giant == Ev.kind \in {"runs", "runhits"}
LoadGiant == ~loaded /\ Giant /\ loaded' = TRUE /\ UNCHANGED <<vars, i>>
Load == /\ ~loaded /\ ~Giant
        /\ ps' = Ev.ps /\ orig' = Ev.s /\ want' = Ev.n /\ cur' = Ev.s
        /\ pos' = 0 /\ out' = <<>> /\ done' = 0 /\ loaded' = TRUE
        /\ UNCHANGED i
Hits(p) == SelectSeq([k \in 1..Len(orig) + 2 |-> k - 1], LAMBDA n : Matches(p, orig, n))
RunsWanted == RunIterate(Ev.ps, Ev.s, 2, Ev.n)
HitsWanted == [k \in 1..Len(Ev.ps) |-> RunHits(Ev.ps[k], Ev.s, 2)]
AgreesGiant == Ev.k = "ok" /\ IF Ev.kind = "runs" THEN Ev.res = RunsWanted ELSE Ev.hits = HitsWanted
Agrees == IF Ev.kind = "match" THEN Ev.hits = [k \in 1..Len(ps) |-> Hits(ps[k])]
          ELSE Ev.k = "ok" /\ Ev.res = cur
JudgeGiant == /\ loaded /\ Giant
              /\ PrintT((IF AgreesGiant THEN "@@ACC " ELSE "@@REJ ") \o ToString(i)
                        \o (IF AgreesGiant THEN "" ELSE " the specification gives " \o (IF Ev.kind = "runs" THEN ToString(RunsWanted) ELSE ToString(HitsWanted))))
              /\ loaded' = FALSE /\ i' = i + 1
              /\ UNCHANGED vars
Judge == /\ loaded /\ ~Giant /\ Terminated
         /\ PrintT((IF Agrees THEN "@@ACC " ELSE "@@REJ ") \o ToString(i)
                   \o (IF Agrees THEN "" ELSE " the specification gives " \o ToString(IF Ev.kind = "match" THEN [k \in 1..Len(ps) |-> Hits(ps[k])] ELSE cur)))
         /\ loaded' = FALSE /\ i' = i + 1
         /\ UNCHANGED vars
\* Derive's invariant, on the shorter strings (it is quadratic, and every state is checked).
ShortScanIsPrefix == Len(cur) <= 60 => ScanIsPrefix
TNext == i <= Len(Trace) /\ (Load \/ LoadGiant \/ (loaded /\ ~Giant /\ Next /\ UNCHANGED <<i, loaded>>) \/ Judge \/ JudgeGiant)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
