------------------------------- MODULE Family -------------------------------
(* C16.  Defining a family: terminals and productions with descriptions, the   *)
(* last definition of a name counts.  What a system of that family knows.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Names, Descriptions, MaxDefs   \* the description "" is: none

VARIABLES defs, terms, prods      \* terms, prods: set of [n, d]
vars == <<defs, terms, prods>>
Put(set, n, d) == {x \in set : x.n # n} \cup {[n |-> n, d |-> d]}
Init == defs = <<>> /\ terms = {} /\ prods = {}
Define(k, n, d) ==
  /\ Len(defs) < MaxDefs
  /\ defs' = Append(defs, [k |-> k, n |-> n, d |-> d])
  /\ IF k = "terminal" THEN terms' = Put(terms, n, d) /\ UNCHANGED prods
     ELSE prods' = Put(prods, n, d) /\ UNCHANGED terms
Next == \E k \in {"terminal", "production"}, n \in Names, d \in Descriptions : Define(k, n, d)
Spec == Init /\ [][Next]_vars

NamesOf(set) == {x.n : x \in set}
Alphabet == NamesOf(terms) \cup NamesOf(prods)
\* Declaratively: the last definition of each name and kind.
LastOf(k, n) == LET is == {i \in 1..Len(defs) : defs[i].k = k /\ defs[i].n = n}
                IN IF is = {} THEN {} ELSE {[n |-> n, d |-> defs[CHOOSE i \in is : \A j \in is : j <= i].d]}
LastCounts == /\ terms = UNION {LastOf("terminal", n) : n \in Names}
              /\ prods = UNION {LastOf("production", n) : n \in Names}
AlphabetIsDefined == Alphabet = {defs[i].n : i \in 1..Len(defs)}
Emit == PrintT("@@" \o ToJson([defs |-> defs, terms |-> terms, prods |-> prods, alphabet |-> Alphabet]))
=============================================================================
