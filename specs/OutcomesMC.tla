----------------------------- MODULE OutcomesMC -----------------------------
(* The derivation loop of Derive with a choice among the bodies at each match: *)
(* it ends in the outcomes of Outcomes and in no others.                       *)
EXTENDS Outcomes, TLC
CONSTANTS Syms, Unit, Chances, MaxBodies, MaxProds, MaxBody, MaxLen, MaxIter

VARIABLES ps, orig, want, cur, pos, out, done, failed
vars == <<ps, orig, want, cur, pos, out, done, failed>>
BodyStrings == SeqsUpTo(Syms, MaxBody)
Vals == {c - 1 : c \in Chances}          \* shifted by one: 0 is "unset"
Productions == UNION {[l : {<<>>, <<<<"A">>>>}, t : Syms, r : {<<>>}, bs : [1..k -> BodyStrings], w : [1..k -> Vals]] : k \in 1..MaxBodies}
Systems == {q \in UNION {[1..k -> Productions] : k \in 0..MaxProds} : Distinct(q)}
Init == /\ ps \in Systems /\ orig \in SeqsUpTo(Syms, MaxLen) /\ want \in 0..MaxIter
        /\ cur = orig /\ pos = 0 /\ out = <<>> /\ done = 0 /\ failed = FALSE
Keep == UNCHANGED <<ps, orig, want>>
Scan == /\ ~failed /\ done < want /\ pos < Len(cur) /\ Keep
        /\ LET c == Choice(ps, cur, pos + 1) IN
           \/ c = 0 /\ out' = Append(out, cur[pos + 1]) /\ pos' = pos + 1 /\ UNCHANGED <<cur, done, failed>>
           \/ c # 0 /\ TooMuch(ps[c].w, Unit) /\ failed' = TRUE /\ UNCHANGED <<cur, pos, out, done>>
           \/ c # 0 /\ ~TooMuch(ps[c].w, Unit)
              /\ \E k \in Likely(ps[c], Unit) : out' = out \o ps[c].bs[k]
              /\ pos' = pos + 1 /\ UNCHANGED <<cur, done, failed>>
EndOfScan == ~failed /\ done < want /\ pos = Len(cur) /\ cur' = out /\ out' = <<>> /\ pos' = 0 /\ done' = done + 1 /\ UNCHANGED failed /\ Keep
Next == Scan \/ EndOfScan
Spec == Init /\ [][Next]_vars

Outcome == IF failed THEN <<>> ELSE <<cur>>
Over == failed \/ done = want
EndsInAnOutcome == Over => Outcome \in DOMAIN Dist(ps, Unit, orig, want)
\* How the step under way can end, and what is still possible after it.
RECURSIVE From(_)
From(n) == IF n > Len(cur) THEN Point(<<<<>>>>) ELSE After(SymbolDist(ps, Unit, cur, n), From(n + 1))
Rest == IF failed THEN Point(<<>>) ELSE IF done = want THEN Point(<<cur>>) ELSE After(Point(<<out>>), From(pos + 1))
Possible == UNION {IF o = <<>> THEN {<<>>} ELSE DOMAIN Dist(ps, Unit, o[1], IF done = want THEN 0 ELSE want - done - 1) : o \in DOMAIN Rest}
\* Nothing that was possible at the start is lost but by a choice: at the start all is possible.
AllPossibleAtFirst == (done = 0 /\ pos = 0) => Possible = DOMAIN Dist(ps, Unit, orig, want)
\* Each choice keeps some of it and adds nothing.
OnlyPossible == Possible \subseteq DOMAIN Dist(ps, Unit, orig, want) /\ Possible # {}
SumsToOne == (done = 0 /\ pos = 0) => IsOne(Dist(ps, Unit, orig, want))
\* With one body (or one that is certain) for every production it is the deterministic step.
Certain(p) == Len(p.bs) = 1
Deterministic == (done = 0 /\ pos = 0 /\ \A i \in 1..Len(ps) : Certain(ps[i])) =>
   Dist(ps, Unit, orig, want) = Point(<<Iterate([i \in 1..Len(ps) |-> [l |-> ps[i].l, t |-> ps[i].t, r |-> ps[i].r, b |-> ps[i].bs[1]]], orig, want)>>)
=============================================================================
