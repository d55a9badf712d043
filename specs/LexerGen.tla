------------------------------ MODULE LexerGen ------------------------------
(* Every behaviour of Lexer within the bounds, written out as a test case.   *)
EXTENDS LexerRuns, TLC, Json
Emit == PrintT("@@" \o ToJson([text |-> text, toks |-> Tokens, p |-> ParseOf(text, Tokens)]))
=============================================================================
