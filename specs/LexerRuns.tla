----------------------------- MODULE LexerRuns -----------------------------
(* C03, C06 for texts of any size: the same rules as Lexer, for a text given  *)
(* as runs <<c, n>> of n equal characters, and for a text that repeats.  That  *)
(* both agree with Lexer on every text is checked by LexerGen (RunsAgree,      *)
(* Periodic).                                                                  *)
EXTENDS Lexer

First3(s) == SubSeq(s, 1, IF Len(s) < 3 THEN Len(s) ELSE 3)
Chars(r) == [n \in 1..(IF r[2] < 3 THEN r[2] ELSE 3) |-> r[1]]
\* A token keeps its first characters: they decide whether it is reserved.
RunStep(st, r) ==
  LET k == KindOf(r[1]) IN
  IF r[2] = 0 THEN st
  ELSE IF k = "s"
  THEN [done |-> st.done \o st.cur, cur |-> <<>>, at |-> st.at + r[2]]
  ELSE IF st.cur # <<>> /\ st.cur[1].k = k
  THEN [done |-> st.done, at |-> st.at + r[2],
        cur |-> <<[st.cur[1] EXCEPT !.b = st.at + r[2], !.t = First3(@ \o Chars(r))]>>]
  ELSE [done |-> st.done \o st.cur, at |-> st.at + r[2],
        cur |-> <<[k |-> k, a |-> st.at + 1, b |-> st.at + r[2], t |-> Chars(r)]>>]
RunTokens(runs) ==
  LET RECURSIVE Go(_, _)
      Go(n, st) == IF n > Len(runs) THEN st.done \o st.cur ELSE Go(n + 1, RunStep(st, runs[n]))
  IN Go(1, [done |-> <<>>, cur |-> <<>>, at |-> 0])
RunParse(toks) ==
  LET stops == {i \in 1..Len(toks) : toks[i].t = <<";">>}
      n == IF stops = {} THEN Len(toks) ELSE (CHOOSE i \in stops : \A j \in stops : i <= j) - 1
  IN [ok |-> \A i \in 1..n : toks[i].t \notin {<<"-", ">">>, <<"<">>, <<">">>}, n |-> n]

RunsOf(t) ==
  LET RECURSIVE Go(_, _)
      Go(n, rs) == IF n > Len(t) THEN rs
                   ELSE IF rs # <<>> /\ rs[Len(rs)][1] = t[n] THEN Go(n + 1, [rs EXCEPT ![Len(rs)][2] = @ + 1])
                   ELSE Go(n + 1, Append(rs, <<t[n], 1>>))
  IN Go(1, <<>>)
RunsAgree ==
  LET r == RunTokens(RunsOf(text))
      p == ParseOf(text, Tokens)
  IN /\ Len(r) = Len(Tokens)
     /\ \A n \in 1..Len(r) : <<r[n].k, r[n].a, r[n].b>> = <<Tokens[n].k, Tokens[n].a, Tokens[n].b>>
     /\ RunParse(r) = [ok |-> p.ok, n |-> Len(p.syms)]

\* A text that ends in white space, m times over: the same tokens, each time further on.
Shifted(toks, d) == [n \in 1..Len(toks) |-> [toks[n] EXCEPT !.a = @ + d, !.b = @ + d]]
Periodic ==
  text # <<>> /\ text[Len(text)] = "s" =>
     LexAll(text \o text \o text) = Tokens \o Shifted(Tokens, Len(text)) \o Shifted(Tokens, 2 * Len(text))
=============================================================================
