------------------------------ MODULE Registry ------------------------------
(* The symbol registry of the process (src/symbols.rs), atomic specification.  *)
(* Names are already trimmed; Blank names are the empty ones.                  *)
EXTENDS Naturals, FiniteSets

CONSTANTS Blank
VARIABLE book    \* the pairs <<code, name>> given out so far

TypeOK == \A p \in book : p[1] \in Nat /\ p[1] > 0
CodeTaken(c) == \E p \in book : p[1] = c
NameTaken(n) == \E p \in book : p[2] = n

\* A request for the code of n, answered with c (0: an error).
Get(n, c) ==
  IF n \in Blank THEN c = 0 /\ UNCHANGED book
  ELSE /\ c > 0
       /\ IF NameTaken(n) THEN <<c, n>> \in book /\ UNCHANGED book
          ELSE ~CodeTaken(c) /\ book' = book \cup {<<c, n>>}
\* What of a request matters to those who read codes back: the code c is now known as n.
GetAny(n, c) ==
  IF c = 0 THEN UNCHANGED book
  ELSE IF CodeTaken(c) THEN <<c, n>> \in book /\ UNCHANGED book
  ELSE book' = book \cup {<<c, n>>}
\* Reading a code back.
Name(c, r) ==
  /\ IF CodeTaken(c) THEN <<c, r>> \in book ELSE r = "none"
  /\ UNCHANGED book

\* m requests, each for another name that was never requested before, and later the same
\* requests again and the codes read back: how many codes came out (distinct), how many
\* names had the same code again (same), how many codes gave their name back (back).
\* (Codes known from elsewhere are kept apart by the recorder; see RegistryTrace.)
ManyCodes(m, distinct, same) == distinct = m /\ same = m /\ UNCHANGED book
ManyNames(m, back) == back = m /\ UNCHANGED book

OneToOne == \A p, q \in book : (p[1] = q[1]) <=> (p[2] = q[2])
NoBlank == \A p \in book : p[2] \notin Blank
Forever == [][book \subseteq book']_book
=============================================================================
