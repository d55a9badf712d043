--------------------------- MODULE StochasticGen ----------------------------
(* Every list of chances up to a length, with what must come of it.            *)
EXTENDS Stochastic, TLC, Json
CONSTANTS Unit, Values, MaxLen, OnlySum,  \* OnlySum: 0, or the sum that lists must have
          Starts    \* the lists to go on from
VARIABLE w
Nothing == {<<>>}
\* Hundreds of bodies, one of them perhaps with half or all or none of the probability.
Many == {[k \in 1..MaxLen - 1 |-> IF k = p THEN v ELSE Unset] : p \in {1, 2, MaxLen \div 2}, v \in {Unset, 0, Unit \div 2, Unit}}
Init == w \in Starts
Vals == {v - 1 : v \in Values}            \* Values are shifted by one: 0 is "unset"
Next == Len(w) < MaxLen /\ \E v \in Vals : w' = Append(w, v)
Spec == Init /\ [][Next]_w
Sums == IsDistribution(w, Unit)
\* What one more body does to the error: it is there for good.
ErrorStays == [][TooMuch(w, Unit) => TooMuch(w', Unit)]_w
Bounded == OnlySum = 0 \/ SumSet(w') <= OnlySum
Show == Bounded /\ ((OnlySum # 0 /\ SumSet(w') # OnlySum)
        \/ PrintT("@@" \o ToJson([w |-> w', u |-> Unit, err |-> TooMuch(w', Unit),
             zero |-> IF TooMuch(w', Unit) THEN {} ELSE LET ns == Nums(w', Unit) IN {k \in 1..Len(w') : ns[k] = 0}])))
=============================================================================
