--------------------------- MODULE OutcomesTrace ----------------------------
(* Recorded frequencies of the outcomes of derivations of the real code.        *)
EXTENDS Outcomes, TLC, Json, IOUtils
Rec == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Init == i \in 1..Len(Rec)
Next == FALSE /\ i' = i
Spec == Init /\ [][Next]_i
R == Rec[i]
\* Sums of whole 64ths are exact in any floating-point arithmetic.
Exact == R.u \in {1, 2, 4, 8, 16, 32, 64}
D == Dist(R.ps, R.u, R.s, R.n)
Seen == {c[1] : c \in {R.counts[k] : k \in 1..Len(R.counts)}}
Count(o) == LET m == {k \in 1..Len(R.counts) : R.counts[k][1] = o} IN IF m = {} THEN 0 ELSE R.counts[CHOOSE k \in m : TRUE][2]
Total == FoldSet(LAMBDA k, acc : acc + R.counts[k][2], 0, 1..Len(R.counts))
Foreign == Seen \ DOMAIN D
OutOfLine == LET d == D IN {o \in DOMAIN d : ~Near(Count(o), R.m, d[o][1], d[o][2], Exact)}
Why == IF Total # R.m THEN "outcomes are missing"
       ELSE IF Exact /\ Foreign # {} THEN "impossible outcomes: " \o ToString(Foreign)
       ELSE IF \E o \in Foreign : ~Near(Count(o), R.m, 0, 1, FALSE) THEN "impossible outcomes: " \o ToString(Foreign)
       ELSE IF OutOfLine # {} THEN "too often or too rarely: " \o ToString({<<o, D[o]>> : o \in OutOfLine})
       ELSE ""
Judge == IF Why = "" THEN PrintT("@@ACC " \o ToString(i)) ELSE PrintT("@@REJ " \o ToString(i) \o " " \o Why)
=============================================================================
