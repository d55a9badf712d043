----------------------------- MODULE GrammarGen -----------------------------
EXTENDS Grammar, TLC, Json
Emit == PrintT("@@" \o ToJson([text |-> text, want |-> Machine]))
=============================================================================
