------------------------------ MODULE LSystem ------------------------------
(* Productions, matching and derivation (src/productions.rs, src/system.rs). *)
(*                                                                           *)
(* A string is a sequence of symbols.  A production is [l, t, r, b]: left    *)
(* context, target, right context, body.  A context is <<>> (there is none)  *)
(* or <<s>> (the string s, possibly empty).                                  *)
EXTENDS Naturals, Sequences, FiniteSets

Ctx(c) == IF c = <<>> THEN <<>> ELSE c[1]

\* Declarative: production p matches the n-th symbol (1-based) of s.
LeftStands(c, s, n) == LET l == Ctx(c) IN n > Len(l) /\ SubSeq(s, n - Len(l), n - 1) = l
RightStands(c, s, n) == LET r == Ctx(c) IN n + Len(r) <= Len(s) /\ SubSeq(s, n + 1, n + Len(r)) = r
Matches(p, s, n) ==
  /\ n \in 1..Len(s)
  /\ s[n] = p.t
  /\ LeftStands(p.l, s, n)
  /\ RightStands(p.r, s, n)

\* Operational: compare the target, then outward to the left, then to the right.
RECURSIVE WalkLeft(_, _, _, _), WalkRight(_, _, _, _)
WalkLeft(l, s, n, k) == IF k > Len(l) THEN TRUE
                        ELSE IF n - k < 1 THEN FALSE
                        ELSE s[n - k] = l[Len(l) + 1 - k] /\ WalkLeft(l, s, n, k + 1)
WalkRight(r, s, n, k) == IF k > Len(r) THEN TRUE
                         ELSE IF n + k > Len(s) THEN FALSE
                         ELSE s[n + k] = r[k] /\ WalkRight(r, s, n, k + 1)
Walk(p, s, n) == /\ n \in 1..Len(s)
                 /\ s[n] = p.t
                 /\ WalkLeft(Ctx(p.l), s, n, 1)
                 /\ WalkRight(Ctx(p.r), s, n, 1)

HeadOf(p) == <<p.l, p.t, p.r>>   \* what makes two productions the same production
Distinct(ps) == \A i, j \in 1..Len(ps) : i # j => HeadOf(ps[i]) # HeadOf(ps[j])

\* The first production that matches there, or 0.
Choice(ps, s, n) ==
  LET m == {i \in 1..Len(ps) : Matches(ps[i], s, n)}
  IN IF m = {} THEN 0 ELSE CHOOSE i \in m : \A j \in m : i <= j
Replacement(ps, s, n) == LET c == Choice(ps, s, n) IN IF c = 0 THEN <<s[n]>> ELSE ps[c].b

RECURSIVE Join(_, _, _)
Join(ps, s, n) == IF n = 0 THEN <<>> ELSE Join(ps, s, n - 1) \o Replacement(ps, s, n)
\* One derivation step, all symbols at once.
Once(ps, s) == Join(ps, s, Len(s))

RECURSIVE Iterate(_, _, _)
Iterate(ps, s, n) == IF n = 0 THEN s ELSE Iterate(ps, Once(ps, s), n - 1)

\* s and its successive steps, up to n of them, as long as they stay within max symbols.
RECURSIVE Steps(_, _, _, _)
Steps(ps, s, n, max) == IF n = 0 \/ Len(s) > max THEN <<s>> ELSE <<s>> \o Steps(ps, Once(ps, s), n - 1, max)

SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Contexts(S, n) == {<<>>} \cup {<<c>> : c \in SeqsUpTo(S, n)}
=============================================================================
