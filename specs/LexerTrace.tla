----------------------------- MODULE LexerTrace -----------------------------
(* Recorded calls of the real tokeniser and parser, checked against Lexer.   *)
(* Each record is typed character by character with Lexer's own action; when *)
(* the text is complete the recorded tokens and symbols must be Lexer's.     *)
(* Very large texts are recorded as runs, or as a part and how often it came. *)
EXTENDS LexerRuns, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Ev == Trace[i]

TInit == Init /\ i = 1
TType == /\ Ev.kind # "runs" /\ Len(text) < Len(Ev.text)
         /\ Type(Ev.text[Len(text) + 1])
         /\ UNCHANGED i

Ranges(ts) == [n \in 1..Len(ts) |-> <<ts[n].a, ts[n].b>>]
Rep == Ev.kind = "rep"
RunToks == RunTokens(Ev.runs)
TokensAgree ==
  CASE Ev.kind = "runs" -> Ev.toks = Ranges(RunToks)
    [] Ev.kind = "rep" -> LET t == Tokens n == Len(t) IN      \* the part, Ev.m times
                          /\ Len(Ev.toks) = n * Ev.m
                          /\ \A k \in 0..Ev.m - 1 : \A j \in 1..n :
                                Ev.toks[k * n + j] = <<t[j].a + k * Len(text), t[j].b + k * Len(text)>>
    [] OTHER -> Ev.toks = Ranges(Tokens)
\* whether the text parses, and to how many symbols (from the terminator on, nothing counts)
Parsed ==
  CASE Ev.kind = "runs" -> RunParse(RunToks)
    [] OTHER -> LET p == ParseOf(text, Tokens) IN
                [ok |-> p.ok, n |-> IF Rep /\ Len(p.syms) = Len(Tokens) THEN Len(p.syms) * Ev.m ELSE Len(p.syms)]
ParseAgrees == LET p == Parsed IN IF p.ok THEN Ev.p.k = "ok" /\ Ev.p.n = p.n ELSE Ev.p.k = "error"
RoundTripAgrees == Ev.rt = IF Parsed.ok THEN "same" ELSE "none"
Verdict == (IF TokensAgree THEN "" ELSE " tokens") \o (IF ParseAgrees THEN "" ELSE " symbols")
           \o (IF RoundTripAgrees THEN "" ELSE " roundtrip")
TJudge == /\ Ev.kind = "runs" \/ Len(text) = Len(Ev.text)
          /\ PrintT(IF Verdict = "" THEN "@@ACC " \o ToString(i) ELSE "@@REJ " \o ToString(i) \o Verdict)
          /\ i' = i + 1
          /\ text' = <<>> /\ lx' = LexInit
\* Lexer's own invariants, on the shorter texts (they are quadratic, and every state is checked).
ShortEnough == Len(text) <= 100
Invariants == ShortEnough => NothingDropped /\ InOrder /\ OneKind /\ Maximal
TNext == i <= Len(Trace) /\ (TType \/ TJudge)
TSpec == TInit /\ [][TNext]_<<vars, i>>
=============================================================================
