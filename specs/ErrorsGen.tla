------------------------------ MODULE ErrorsGen -----------------------------
(* One test per transition of Errors.                                          *)
EXTENDS Errors, Json
Show == PrintT("@@" \o ToJson([log |-> log', err |-> Seen(err'), other |-> Seen(other')]))
=============================================================================
