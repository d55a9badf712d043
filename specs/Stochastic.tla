----------------------------- MODULE Stochastic -----------------------------
(* Productions with several bodies (src/productions.rs). Chances are whole      *)
(* numbers of 1/Unit; Unset marks a body without a chance. Probabilities are     *)
(* exact fractions with one denominator.                                         *)
EXTENDS Integers, Sequences, FiniteSets

Unset == -1

RECURSIVE SumUpTo(_, _)
SumUpTo(w, n) == IF n = 0 THEN 0 ELSE (IF w[n] = Unset THEN 0 ELSE w[n]) + SumUpTo(w, n - 1)
SumSet(w) == SumUpTo(w, Len(w))
Open(w) == {k \in 1..Len(w) : w[k] = Unset}

\* Choosing among the bodies w is an error exactly when several bodies ask for more than 1.
TooMuch(w, u) == Len(w) > 1 /\ SumSet(w) > u
Den(w, u) == u * (IF Open(w) = {} THEN 1 ELSE Cardinality(Open(w)))
\* The probability of body k is Num(w, u, k) / Den(w, u).
NumOf(w, u, k, sum, open) ==   \* sum: of the chances that are set; open: how many are not
  IF Len(w) = 1 THEN u * (IF open = 0 THEN 1 ELSE open)
  ELSE IF w[k] = Unset THEN u - sum
  ELSE w[k] * (IF open = 0 THEN 1 ELSE open) + (IF open = 0 /\ k = Len(w) THEN u - sum ELSE 0)
Num(w, u, k) == NumOf(w, u, k, SumSet(w), Cardinality(Open(w)))
\* All of them (the same, computed together).
Nums(w, u) == LET sum == SumSet(w) open == Cardinality(Open(w)) IN [k \in 1..Len(w) |-> NumOf(w, u, k, sum, open)]

IsDistribution(w, u) == w # <<>> /\ ~TooMuch(w, u) =>
  LET ns == Nums(w, u) IN SumUpTo(ns, Len(w)) = Den(w, u) /\ \A k \in 1..Len(w) : ns[k] \in 0..Den(w, u)

\* How far a count may be from its mean: six and a half standard deviations and a little more
\* (none at all when the probability is 0 or 1 and the chances are exact).
RECURSIVE Root(_, _, _)
Root(x, lo, hi) == IF lo >= hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= x THEN Root(x, m, hi) ELSE Root(x, lo, m - 1)
Slack(n, num, den, exact) ==
  IF exact /\ (num = 0 \/ num = den) THEN 0
  ELSE Root(43 * (((((n * num) \div den) + 1) * (den - num)) \div den) + 43, 0, 46000) + 4
Near(count, n, num, den, exact) ==
  LET d == count * den - n * num IN (IF d < 0 THEN -d ELSE d) <= den * Slack(n, num, den, exact)
=============================================================================
