---------------------------- MODULE OutcomesGen -----------------------------
(* Systems whose productions have several bodies, built body by body, with the  *)
(* derivations to carry out many times: those with few enough outcomes.         *)
EXTENDS Outcomes, TLC, Json
CONSTANTS Syms, Unit, Chances, MaxCtx, MaxBody, MaxBodies, MaxProds, MaxLen, Iters, MaxOutcomes, MaxDen
VARIABLE ps
Vals == {c - 1 : c \in Chances}          \* shifted by one: 0 is "unset"
Total == LET RECURSIVE Count(_)
             Count(q) == IF q = <<>> THEN 0 ELSE Len(Head(q).bs) + Count(Tail(q))
         IN Count(ps)
Init == ps = <<>>
Add == \E l \in Contexts(Syms, MaxCtx), t \in Syms, r \in Contexts(Syms, MaxCtx), b \in SeqsUpTo(Syms, MaxBody), v \in Vals :
         LET p == [l |-> l, t |-> t, r |-> r, bs |-> <<b>>, w |-> <<v>>] IN
         /\ Len(ps) < MaxProds /\ Total < MaxBodies
         /\ \A i \in 1..Len(ps) : HeadOf(ps[i]) # HeadOf(p)
         /\ ps' = Append(ps, p)
\* One more body for the last production.
More == /\ ps # <<>> /\ Total < MaxBodies
        /\ \E b \in SeqsUpTo(Syms, MaxBody), v \in Vals :
             ps' = [ps EXCEPT ![Len(ps)].bs = Append(@, b), ![Len(ps)].w = Append(@, v)]
Next == Add \/ More
Spec == Init /\ [][Next]_ps
Worth(d) == Cardinality(DOMAIN d) \in 1..MaxOutcomes /\ \A o \in DOMAIN d : d[o][2] <= MaxDen
Runs == {x \in (SeqsUpTo(Syms, MaxLen) \ {<<>>}) \X Iters :
           /\ \E n \in 1..Len(x[1]) : Choice(ps, x[1], n) # 0
           /\ Worth(Dist(ps, Unit, x[1], x[2]))}
Emit == (\E i \in 1..Len(ps) : Len(ps[i].bs) > 1) => LET rs == Runs IN rs = {} \/ PrintT("@@" \o ToJson([ps |-> ps, u |-> Unit, runs |-> rs]))
=============================================================================
