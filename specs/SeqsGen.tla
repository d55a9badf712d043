------------------------------ MODULE SeqsGen -------------------------------
(* One test per transition of Seqs.                                            *)
EXTENDS Seqs, Json
Show == PrintT("@@" \o ToJson([log |-> log', a |-> a', b |-> b', same |-> a' = b']))
=============================================================================
