---------------------------- MODULE GrammarTrace ----------------------------
(* Recorded parses of long production texts, read term by term with Grammar's *)
(* own action.                                                                *)
EXTENDS Grammar, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Ev == Trace[i]
TInit == Init /\ i = 1
TRead == Len(text) < Len(Ev.text) /\ Read(Ev.text[Len(text) + 1]) /\ UNCHANGED i
Agrees == Machine.v = "any" \/ Ev.got = Machine
TJudge == /\ Len(text) = Len(Ev.text)
          /\ PrintT(IF Agrees THEN "@@ACC " \o ToString(i) ELSE "@@REJ " \o ToString(i) \o " the grammar gives " \o ToString(Machine))
          /\ i' = i + 1
          /\ text' = <<>> /\ ph' = "left" /\ buf' = <<>>
          /\ acc' = [l |-> <<>>, t |-> <<>>, r |-> <<>>, c |-> "unset", b |-> <<>>]
TNext == i <= Len(Trace) /\ (TRead \/ TJudge)
TSpec == TInit /\ [][TNext]_<<vars, i>>
=============================================================================
