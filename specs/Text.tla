-------------------------------- MODULE Text --------------------------------
(* C04.  Texts typed fragment by fragment and handed to a parser.  A call is   *)
(* pending until it returns; it returns a value or an error, and nothing else  *)
(* can happen to it.                                                           *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Fragments, MaxLen
VARIABLES text, call    \* call: "none", "pending", "ok", "error"
vars == <<text, call>>
Init == text = <<>> /\ call = "none"
Type(f) == call = "none" /\ Len(text) < MaxLen /\ text' = Append(text, f) /\ UNCHANGED call
Call == call = "none" /\ call' = "pending" /\ UNCHANGED text
Return(o) == call = "pending" /\ o \in {"ok", "error"} /\ call' = o /\ UNCHANGED text
Next == (\E f \in Fragments : Type(f)) \/ Call \/ (\E o \in {"ok", "error"} : Return(o))
Spec == Init /\ [][Next]_vars /\ WF_vars(\E o \in {"ok", "error"} : Return(o))
EveryCallReturns == call = "pending" ~> call \in {"ok", "error"}
Typing == call = "none"
Emit == call = "none" => PrintT("@@" \o ToJson([text |-> text]))
=============================================================================
