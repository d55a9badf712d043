-------------------------- MODULE StochasticTrace ---------------------------
(* Recorded choices of the real code: how often each body was used in n         *)
(* choices, and how often each pair of bodies in n pairs of choices that must    *)
(* be independent.                                                               *)
EXTENDS Stochastic, TLC, Json, IOUtils
Rec == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Init == i \in 1..Len(Rec)
Next == FALSE /\ i' = i
Spec == Init /\ [][Next]_i
R == Rec[i]
\* Chances that are whole 64ths are exact in any floating-point arithmetic.
Dyadic(u) == u \in {1, 2, 4, 8, 16, 32, 64}
Exact == Dyadic(R.u)
Total(c) == SumUpTo(c, Len(c))
Counts ==
  IF TooMuch(R.w, R.u) THEN R.errors = R.n
  ELSE /\ R.errors = 0 /\ Total(R.counts) = R.n
       /\ LET ns == Nums(R.w, R.u) IN \A k \in 1..Len(R.w) : Near(R.counts[k], R.n, ns[k], Den(R.w, R.u), Exact)
Pairs ==
  /\ R.errors = 0
  /\ LET n1 == Nums(R.w, R.u) n2 == Nums(R.w2, R.u) IN \A j \in 1..Len(R.w) : \A k \in 1..Len(R.w2) :
       Near(R.counts[j][k], R.n, n1[j] * n2[k], Den(R.w, R.u) * Den(R.w2, R.u), Exact)
Good == CASE R.o = "counts" -> Counts [] R.o = "pairs" -> Pairs
Judge == IF Good THEN PrintT("@@ACC " \o ToString(i)) ELSE PrintT("@@REJ " \o ToString(i) \o " not the frequencies of the chances")
=============================================================================
