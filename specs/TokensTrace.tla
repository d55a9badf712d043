----------------------------- MODULE TokensTrace ----------------------------
(* Recorded tokens: those that reading a text gives, and those made of texts.  *)
EXTENDS Tokens, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i
Rec == Trace[i]
TInit == text = <<>> /\ i = 1
Agrees == \A k \in 1..Len(Rec.tokens) : LET t == Rec.tokens[k] IN t.seen = Seen(t.text) /\ t.start = t.from /\ t.end = t.to
TNext == /\ i <= Len(Trace) /\ i' = i + 1 /\ UNCHANGED text
         /\ IF Agrees THEN PrintT("@@ACC " \o ToString(i)) ELSE PrintT("@@REJ " \o ToString(i))
TSpec == TInit /\ [][TNext]_<<text, i>>
=============================================================================
