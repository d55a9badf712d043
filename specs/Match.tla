------------------------------- MODULE Match -------------------------------
(* C07.  Every head, and every string it is matched against, typed one symbol *)
(* at a time.                                                                 *)
EXTENDS LSystem, TLC, Json
CONSTANTS Syms, MaxCtx, MaxLen

VARIABLES p, s, hits
vars == <<p, s, hits>>

Hits(pr, str) == {n \in 0..Len(str) + 1 : Matches(pr, str, n)}

Init == /\ p \in [l : Contexts(Syms, MaxCtx), t : Syms, r : Contexts(Syms, MaxCtx), b : {<<>>}]
        /\ s = <<>> /\ hits = {}
Type(c) == /\ Len(s) < MaxLen
           /\ s' = Append(s, c)
           /\ hits' = Hits(p, s')
           /\ UNCHANGED p
Next == \E c \in Syms : Type(c)
Spec == Init /\ [][Next]_vars

\* The walk that the implementation makes decides the same.
WalkIsMatch == \A n \in 0..Len(s) + 1 : Walk(p, s, n) <=> n \in hits
\* Matching is local: only the target and its contexts are looked at.
Local == \A n \in hits :
           LET lo == n - Len(Ctx(p.l))  hi == n + Len(Ctx(p.r))
           IN /\ lo >= 1 /\ hi <= Len(s)
              /\ Matches(p, SubSeq(s, lo, hi), n - lo + 1)
\* Appending text never invalidates a match and only adds ones that reach the end.
Stable == [][hits \subseteq hits' /\ \A n \in hits' \ hits : n + Len(Ctx(p.r)) = Len(s')]_vars
\* An absent context and an empty one allow the same positions.
EmptyIsAbsent == \A n \in 1..Len(s) :
   /\ p.l = <<<<>>>> => (Matches([p EXCEPT !.l = <<>>], s, n) <=> n \in hits)
   /\ p.r = <<<<>>>> => (Matches([p EXCEPT !.r = <<>>], s, n) <=> n \in hits)

\* Each context alone stands where it stands, whatever the target.
Lefts == {n \in 1..Len(s) : LeftStands(p.l, s, n)}
Rights == {n \in 1..Len(s) : RightStands(p.r, s, n)}
Parts == /\ hits = {n \in Lefts \cap Rights : s[n] = p.t}
         /\ \A n \in 1..Len(s) : (n \in Lefts <=> WalkLeft(Ctx(p.l), s, n, 1)) /\ (n \in Rights <=> WalkRight(Ctx(p.r), s, n, 1))

Emit == PrintT("@@" \o ToJson([l |-> p.l, t |-> p.t, r |-> p.r, s |-> s, hits |-> hits, lefts |-> Lefts, rights |-> Rights]))
=============================================================================
