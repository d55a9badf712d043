-------------------------------- MODULE Plant --------------------------------
(* Plant descriptions (src/interpretation/abop/parser.rs), read line by line.  *)
(* A line is [k, v]:                                                           *)
(*   "n", "d"   a setting; v is the number written there                       *)
(*   "i"        the axiom, v an axiom's name (AxiomOf)                         *)
(*   "I"        the axiom, v its symbols                                       *)
(*   "p"        a production, v its name (ProdOf)                              *)
(*   "P"        a production, v the production: contexts, target, chance, body *)
(*   "blank"    nothing but white space or a comment                           *)
(*   "bad"      a line that no description may contain; v says why             *)
EXTENDS LSystem, Integers

VARIABLES lines,                    \* read so far
          n, delta, axiom, prods, bad
vars == <<lines, n, delta, axiom, prods, bad>>

Turtle == {"Forward", "Move", "X", "+", "-", "[", "]"}
P(l, t, r, b) == [l |-> l, t |-> t, r |-> r, c |-> "", b |-> b]      \* c = "": no chance written
ProdOf(v) == CASE v = "grow" -> P(<<>>, "X", <<>>, <<"Forward", "X">>)
               [] v = "after" -> P(<<<<"Forward">>>>, "X", <<>>, <<"Move">>)
               [] v = "turn" -> P(<<>>, "X", <<>>, <<"+", "X", "]">>)
               [] v = "leaf" -> P(<<>>, "Forward", <<>>, <<"Leaf", "Forward">>)
               [] v = "gone" -> P(<<>>, "Forward", <<<<"X">>>>, <<>>)
ProdNames == {"grow", "after", "turn", "leaf", "gone"}
AxiomOf(v) == CASE v = "one" -> <<"X">>
                [] v = "three" -> <<"Forward", "X", "Root">>
AxiomNames == {"one", "three"}

Init == lines = <<>> /\ n = "2" /\ delta = "5" /\ axiom = <<>> /\ prods = <<>> /\ bad = FALSE

Found(ps, q) == {j \in 1..Len(ps) : HeadOf(ps[j]) = HeadOf(q)}
IsProd(x) == x.k \in {"p", "P"}
IsAxiom(x) == x.k \in {"i", "I"}
Production(x) == IF x.k = "p" THEN ProdOf(x.v) ELSE x.v
AxiomIn(x) == IF x.k = "i" THEN AxiomOf(x.v) ELSE x.v
Body(q) == [c |-> q.c, b |-> q.b]
Stored(q) == [l |-> q.l, t |-> q.t, r |-> q.r, bs |-> <<Body(q)>>]
Merge(ps, q) == IF Found(ps, q) = {} THEN Append(ps, Stored(q))
                ELSE [ps EXCEPT ![CHOOSE j \in Found(ps, q) : TRUE].bs = Append(@, Body(q))]
Read(x) ==
  /\ lines' = Append(lines, x)
  /\ n' = IF x.k = "n" THEN x.v ELSE n
  /\ delta' = IF x.k = "d" THEN x.v ELSE delta
  /\ axiom' = IF IsAxiom(x) THEN <<AxiomIn(x)>> ELSE axiom
  /\ prods' = IF IsProd(x) THEN Merge(prods, Production(x)) ELSE prods
  /\ bad' = (bad \/ x.k = "bad")

SymsOf(q) == {Ctx(q.l)[j] : j \in 1..Len(Ctx(q.l))} \cup {q.t} \cup {Ctx(q.r)[j] : j \in 1..Len(Ctx(q.r))}
             \cup UNION {{q.bs[m].b[j] : j \in 1..Len(q.bs[m].b)} : m \in 1..Len(q.bs)}
Alphabet == Turtle \cup UNION {SymsOf(prods[j]) : j \in 1..Len(prods)}
\* One body each: what the axiom derives to is then a matter of order alone.
Single == \A j \in 1..Len(prods) : Len(prods[j].bs) = 1
Plain == [j \in 1..Len(prods) |-> P(prods[j].l, prods[j].t, prods[j].r, prods[j].bs[1].b)]
Meaning ==
  IF bad \/ prods = <<>> \/ axiom = <<>> THEN [v |-> "error"]
  ELSE [v |-> "ok", n |-> n, delta |-> delta, axiom |-> axiom[1], prods |-> prods, alphabet |-> Alphabet,
        steps |-> IF Single THEN Steps(Plain, axiom[1], 3, 100) ELSE <<>>]

\* -------------------------------------------------------------------------
\* The same, declaratively: each setting is that of its last line; the productions are
\* the production lines alone, in order; so the order of lines of different kinds is
\* without meaning.
Of(k) == SelectSeq(lines, LAMBDA x : x.k = k)
LastOf(k, default) == IF Of(k) = <<>> THEN default ELSE Of(k)[Len(Of(k))].v
Axioms == SelectSeq(lines, IsAxiom)
Prods == SelectSeq(lines, IsProd)
RECURSIVE MergeAll(_, _)
MergeAll(ps, m) == IF m = 0 THEN <<>> ELSE Merge(MergeAll(ps, m - 1), Production(ps[m]))
ByKind == /\ n = LastOf("n", "2") /\ delta = LastOf("d", "5")
          /\ axiom = (IF Axioms = <<>> THEN <<>> ELSE <<AxiomIn(Axioms[Len(Axioms)])>>)
          /\ prods = MergeAll(Prods, Len(Prods))
          /\ bad = (Of("bad") # <<>>)
\* A blank line or a comment changes nothing.
BlankIsNothing == [][lines'[Len(lines')].k = "blank" => UNCHANGED <<n, delta, axiom, prods, bad>>]_vars
\* No later line makes a bad description good.
BadStaysBad == [][bad => bad']_vars
=============================================================================
