------------------------------- MODULE Lexer -------------------------------
(* The text of a production string, read one character at a time.            *)
(*                                                                           *)
(* A character is abstracted to its lexical class: "s" is white space, "w"   *)
(* and any other letter is a character of a word, and the seven characters   *)
(* of Punct stand for themselves.  A token is a maximal run of characters of *)
(* one kind; token [k, a, b] occupies the characters a..b (1-based).         *)
(*                                                                           *)
(* The machine is the reading of src/parser/iterator.rs (TokenIterator) and  *)
(* src/parser/statement.rs (compile_from).  The invariants below it are an   *)
(* independent, declarative statement of the same rules.                     *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Alphabet,   \* character classes the environment may type
          MaxLen

Punct == {"<", ">", "-", "+", "(", ")", ";"}
KindOf(c) == IF c = "s" THEN "s" ELSE IF c \in Punct THEN "p" ELSE "w"

VARIABLES text,   \* what has been typed so far
          lx      \* lexer state: [done: finished tokens, cur: <<>> or <<token>>]
vars == <<text, lx>>

LexInit == [done |-> <<>>, cur |-> <<>>]

\* Reading character c, which is the n-th of the text.
LexStep(st, c, n) ==
  LET k == KindOf(c) IN
  IF k = "s"
  THEN [done |-> st.done \o st.cur, cur |-> <<>>]
  ELSE IF st.cur # <<>> /\ st.cur[1].k = k
  THEN [st EXCEPT !.cur[1].b = n]
  ELSE [done |-> st.done \o st.cur, cur |-> <<[k |-> k, a |-> n, b |-> n]>>]

\* The tokens of the text if it ends here.
Toks(st) == st.done \o st.cur

TokText(t, tok) == SubSeq(t, tok.a, tok.b)
IsTerminator(t, tok) == TokText(t, tok) = <<";">>
IsReserved(t, tok) == TokText(t, tok) \in {<<"-", ">">>, <<"<">>, <<">">>}

\* The symbols of a production string: everything up to the first lone ";".
UpToTerminator(t, toks) ==
  LET stops == {i \in 1..Len(toks) : IsTerminator(t, toks[i])} IN
  IF stops = {} THEN toks
  ELSE SubSeq(toks, 1, (CHOOSE i \in stops : \A j \in stops : i <= j) - 1)

ParseOf(t, toks) ==
  LET syms == UpToTerminator(t, toks) IN
  [ok |-> \A i \in 1..Len(syms) : ~IsReserved(t, syms[i]), syms |-> syms]

-----------------------------------------------------------------------------
Init == text = <<>> /\ lx = LexInit
Type(c) == /\ Len(text) < MaxLen
           /\ text' = Append(text, c)
           /\ lx' = LexStep(lx, c, Len(text) + 1)
Next == \E c \in Alphabet : Type(c)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* Declarative statement of the rules (checked against the machine).
Tokens == Toks(lx)
Covered(i) == {n \in 1..Len(Tokens) : Tokens[n].a <= i /\ i <= Tokens[n].b}
NothingDropped == \A i \in 1..Len(text) :
                     Cardinality(Covered(i)) = IF KindOf(text[i]) = "s" THEN 0 ELSE 1
InOrder == \A n \in 1..Len(Tokens)-1 : Tokens[n].b < Tokens[n+1].a
OneKind == \A n \in 1..Len(Tokens) : \A i \in Tokens[n].a..Tokens[n].b :
                     KindOf(text[i]) = Tokens[n].k
Maximal == \A n \in 1..Len(Tokens)-1 :
                     Tokens[n].b + 1 = Tokens[n+1].a => Tokens[n].k # Tokens[n+1].k

\* Printing (names joined by single spaces) and reading again gives the same
\* symbols: the design-level statement behind property C06.
Shown(t, syms) ==
  LET RECURSIVE Join(_)
      Join(n) == IF n > Len(syms) THEN <<>>
                 ELSE (IF n = 1 THEN <<>> ELSE <<"s">>) \o TokText(t, syms[n]) \o Join(n + 1)
  IN Join(1)
LexAll(t) ==
  LET RECURSIVE Run(_, _)
      Run(n, st) == IF n > Len(t) THEN st ELSE Run(n + 1, LexStep(st, t[n], n))
  IN Toks(Run(1, LexInit))
RoundTrip ==
  LET p == ParseOf(text, Tokens)
      shown == Shown(text, p.syms)
      q == ParseOf(shown, LexAll(shown))
  IN p.ok => /\ q.ok
             /\ [i \in 1..Len(p.syms) |-> TokText(text, p.syms[i])]
                  = [i \in 1..Len(q.syms) |-> TokText(shown, q.syms[i])]
\* White space only separates: reading is unchanged when a space is doubled.
\* (A space at the ends of the text, or next to another one, yields no token.)
SpacesOnlySeparate ==
  LET squeezed == LET RECURSIVE Sq(_)
                      Sq(n) == IF n > Len(text) THEN <<>>
                               ELSE (IF text[n] = "s" /\ (n = 1 \/ n = Len(text) \/ text[n-1] = "s")
                                     THEN <<>> ELSE <<text[n]>>) \o Sq(n + 1)
                  IN Sq(1)
      u == LexAll(squeezed)
  IN /\ Len(u) = Len(Tokens)
     /\ \A i \in 1..Len(u) : TokText(squeezed, u[i]) = TokText(text, Tokens[i])
=============================================================================
