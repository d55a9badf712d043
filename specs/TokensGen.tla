------------------------------ MODULE TokensGen -----------------------------
(* Every text within the bound.                                                *)
EXTENDS Tokens, Json
Show == PrintT("@@" \o ToJson([text |-> text, seen |-> Seen(text)]))
Emit == Show
=============================================================================
