---------------------------- MODULE DeriveRunsMC ----------------------------
(* DeriveRuns against LSystem: every pair of productions with contexts up to W *)
(* on every string of a few runs.                                              *)
EXTENDS DeriveRuns
CONSTANTS Syms, W, MaxRun, MaxRuns, MaxBody, MaxProds
VARIABLES ps, runs
RunBodies == {<<>>} \cup (Syms \X (1..MaxBody))
Prods == [l : Contexts(Syms, W), t : Syms, r : Contexts(Syms, W), b : RunBodies]
Init == /\ ps \in UNION {[1..k -> Prods] : k \in 0..MaxProds} /\ Distinct(ps)
        /\ runs \in UNION {[1..k -> Syms \X (1..MaxRun)] : k \in 0..MaxRuns}
        /\ \A n \in 1..Len(runs) - 1 : runs[n][1] # runs[n + 1][1]
Spec == Init /\ [][FALSE]_<<ps, runs>>
Plain == [k \in 1..Len(ps) |-> [ps[k] EXCEPT !.b = Expand(IF @ = <<>> THEN <<>> ELSE <<@>>)]]
StepAgrees == LET new == RunOnce(ps, runs, W) IN Expand(new) = Once(Plain, Expand(runs)) /\ Merge(new) = new
HitsAgree == \A k \in 1..Len(ps) :
  LET h == RunHits(ps[k], runs, W)
      s == Expand(runs)
  IN /\ {n \in 1..Len(s) : Matches(Plain[k], s, n)} = UNION {h[j][1]..h[j][2] : j \in 1..Len(h)}
     /\ \A j \in 1..Len(h) : h[j][1] <= h[j][2] /\ (j > 1 => h[j - 1][2] + 1 < h[j][1])
=============================================================================
