------------------------------ MODULE Outcomes ------------------------------
(* C08, C09 with several bodies.  What a derivation of n steps can end in, and *)
(* how likely each of its outcomes is: every symbol that a production matches  *)
(* is replaced by one of the bodies of that production, chosen for it alone by *)
(* the chances of Stochastic, from the string as it was before the step.       *)
(*                                                                             *)
(* A production is [l, t, r, bs, w]: contexts and target as in LSystem, its     *)
(* bodies and their chances in 1/u (Unset: none given).  An outcome is <<s>>,   *)
(* the string s, or <<>>, an error.  A probability is a fraction <<n, d>>, a    *)
(* distribution a function from its possible outcomes to probabilities.         *)
EXTENDS LSystem, Stochastic, FiniteSetsExt

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Frac(n, d) == IF n = 0 THEN <<0, 1>> ELSE LET g == Gcd(n, d) IN <<n \div g, d \div g>>
Times(a, b) == LET x == Frac(a[1], b[2]) y == Frac(b[1], a[2]) IN <<x[1] * y[1], x[2] * y[2]>>
Plus(a, b) == LET g == Gcd(a[2], b[2]) IN Frac(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
Zero == <<0, 1>>
One == <<1, 1>>

Point(o) == [x \in {o} |-> One]
\* The distribution of f(x) for x drawn from the pairs <<outcome, probability>> of a set.
Gather(pairs) == LET os == {x[1] : x \in pairs} IN
                 [o \in os |-> FoldSet(LAMBDA x, acc : Plus(acc, x[2]), Zero, {x \in pairs : x[1] = o})]

Likely(p, u) == {k \in 1..Len(p.bs) : Num(p.w, u, k) > 0}
\* (the third part keeps equal contributions apart)
BodyDist(p, u) == IF TooMuch(p.w, u) THEN Point(<<>>)
                  ELSE Gather({<<<<p.bs[k]>>, Frac(Num(p.w, u, k), Den(p.w, u)), k>> : k \in Likely(p, u)})
SymbolDist(ps, u, s, n) == LET c == Choice(ps, s, n) IN IF c = 0 THEN Point(<<<<s[n]>>>>) ELSE BodyDist(ps[c], u)
Both(o, q) == IF o = <<>> \/ q = <<>> THEN <<>> ELSE <<o[1] \o q[1]>>
\* Two independent parts, one after the other.
After(d, e) == Gather({<<Both(x[1], x[2]), Times(d[x[1]], e[x[2]]), x>> : x \in (DOMAIN d) \X (DOMAIN e)})
RECURSIVE ScanDist(_, _, _, _)
ScanDist(ps, u, s, n) == IF n = 0 THEN Point(<<<<>>>>) ELSE After(ScanDist(ps, u, s, n - 1), SymbolDist(ps, u, s, n))
StepDist(ps, u, s) == ScanDist(ps, u, s, Len(s))
RECURSIVE Dist(_, _, _, _)
Dist(ps, u, s, n) ==
  IF n = 0 THEN Point(<<s>>)
  ELSE LET d == Dist(ps, u, s, n - 1)
           then == [o \in DOMAIN d |-> IF o = <<>> THEN Point(<<>>) ELSE StepDist(ps, u, o[1])]
       IN Gather({<<x[2], Times(d[x[1]], then[x[1]][x[2]]), x[1]>> : x \in UNION {{o} \X DOMAIN then[o] : o \in DOMAIN d}})

Sum(d) == FoldSet(LAMBDA o, acc : Plus(acc, d[o]), Zero, DOMAIN d)
IsOne(d) == Sum(d) = One
=============================================================================
