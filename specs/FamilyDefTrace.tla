--------------------------- MODULE FamilyDefTrace ---------------------------
(* Recorded families of up to hundreds of definitions and the systems made of   *)
(* them, judged after taking the definitions one by one with the actions of     *)
(* Family. A system may have been given more after it was made (more): the      *)
(* family and the systems made later are what they were.                        *)
EXTENDS Family, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i
Ev == Trace[i]
Ran(q) == {q[n] : n \in 1..Len(q)}
TInit == Init /\ i = 1
Takes == Len(defs) < Len(Ev.defs) /\ LET d == Ev.defs[Len(defs) + 1] IN Define(d.k, d.n, d.d) /\ UNCHANGED i
Each(list, set) == Len(list) = Cardinality(set) /\ Ran(list) = set
SystemAgrees(s) == s.count = Cardinality(Alphabet) /\ Ran(s.found) = Alphabet /\ s.productions = 0
Why == (IF Each(Ev.terms, terms) THEN "" ELSE " terminals")
       \o (IF Each(Ev.prods, prods) THEN "" ELSE " productions")
       \o (IF Len(Ev.both) = Cardinality(terms) + Cardinality(prods) /\ Ran(Ev.both) = terms \cup prods THEN "" ELSE " symbols")
       \o (IF \A s \in 1..Len(Ev.systems) : SystemAgrees(Ev.systems[s]) THEN "" ELSE " systems")
Judge == /\ Len(defs) = Len(Ev.defs)
         /\ PrintT(IF Why = "" THEN "@@ACC " \o ToString(i) ELSE "@@REJ " \o ToString(i) \o Why)
         /\ i' = i + 1 /\ defs' = <<>> /\ terms' = {} /\ prods' = {}
AlphabetIsDefinedWhenFew == Len(defs) <= 30 => AlphabetIsDefined
TNext == i <= Len(Trace) /\ (Takes \/ Judge)
TSpec == TInit /\ [][TNext]_<<vars, i>>
=============================================================================
