------------------------------ MODULE Grammar ------------------------------
(* The text of a production (src/parser.rs), read term by term:              *)
(*     [left <] target [> right] -> [chance] body                            *)
(* A term is a name, one of "<", ">", "->", "num" (a number in 0..1) or      *)
(* "bad" (a number outside 0..1).  Elsewhere than at the start of the body   *)
(* numbers are names, and so are "<", ">" and "->" anywhere in the body.     *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Terms, MaxLen
VARIABLES text,   \* the terms so far
          ph,     \* "left": nothing but plain terms so far; "target": after <; "right": after >; "body"; "other"
          buf,    \* terms of the phase
          acc     \* what has been recognised: [l, t, r, c, b], t a sequence
vars == <<text, ph, buf, acc>>

Init == text = <<>> /\ ph = "left" /\ buf = <<>>
        /\ acc = [l |-> <<>>, t |-> <<>>, r |-> <<>>, c |-> "unset", b |-> <<>>]

\* ph "other": a form the grammar says nothing about (several < or >, or > before <).
Read(x) ==
  /\ Len(text) < MaxLen
  /\ text' = Append(text, x)
  /\ IF ph = "body" THEN
       /\ ph' = "body"
       /\ IF buf = <<>> /\ x \in {"num", "bad"}
          THEN acc' = [acc EXCEPT !.c = x] /\ buf' = <<x>>
          ELSE acc' = [acc EXCEPT !.b = Append(@, x)] /\ buf' = <<x>>
     ELSE IF ph = "other" THEN UNCHANGED <<ph, buf, acc>>
     ELSE IF x = "->" THEN
       /\ ph' = "body" /\ buf' = <<>>
       /\ acc' = IF ph = "right" THEN [acc EXCEPT !.r = <<buf>>] ELSE [acc EXCEPT !.t = buf]
     ELSE IF x = "<" THEN
       IF ph = "left" THEN ph' = "target" /\ buf' = <<>> /\ acc' = [acc EXCEPT !.l = <<buf>>]
       ELSE ph' = "other" /\ UNCHANGED <<buf, acc>>
     ELSE IF x = ">" THEN
       IF ph = "right" THEN ph' = "other" /\ UNCHANGED <<buf, acc>>
       ELSE ph' = "right" /\ buf' = <<>> /\ acc' = [acc EXCEPT !.t = buf]
     ELSE ph' = ph /\ buf' = Append(buf, x) /\ UNCHANGED acc

Next == \E x \in Terms : Read(x)
Spec == Init /\ [][Next]_vars

Where(x, s) == {i \in 1..Len(s) : s[i] = x}
Verdict == IF ph = "other" THEN IF Where("->", text) = {} THEN "error" ELSE "any"
           ELSE IF ph # "body" \/ Len(acc.t) # 1 \/ acc.c = "bad" THEN "error" ELSE "ok"

-----------------------------------------------------------------------------
\* The same, declaratively.
FirstOf(x, s) == CHOOSE i \in Where(x, s) : \A j \in Where(x, s) : i <= j
Before(s, i) == SubSeq(s, 1, i - 1)
After(s, i) == SubSeq(s, i + 1, Len(s))
HeadTerms == IF Where("->", text) = {} THEN text ELSE Before(text, FirstOf("->", text))
BodyTerms == After(text, FirstOf("->", text))
Regular == /\ Cardinality(Where("<", HeadTerms)) <= 1 /\ Cardinality(Where(">", HeadTerms)) <= 1
           /\ \A i \in Where("<", HeadTerms), j \in Where(">", HeadTerms) : i < j
HeadRest == IF Where("<", HeadTerms) = {} THEN HeadTerms ELSE After(HeadTerms, FirstOf("<", HeadTerms))
TargetTerms == IF Where(">", HeadRest) = {} THEN HeadRest ELSE Before(HeadRest, FirstOf(">", HeadRest))
HasChance == Len(BodyTerms) > 0 /\ BodyTerms[1] \in {"num", "bad"}
Declared ==
  IF Where("->", text) = {} THEN [v |-> "error"]
  ELSE IF ~Regular THEN [v |-> "any"]
  ELSE IF Len(TargetTerms) # 1 \/ (HasChance /\ BodyTerms[1] = "bad") THEN [v |-> "error"]
  ELSE [v |-> "ok",
        l |-> IF Where("<", HeadTerms) = {} THEN <<>> ELSE <<Before(HeadTerms, FirstOf("<", HeadTerms))>>,
        t |-> TargetTerms,
        r |-> IF Where(">", HeadRest) = {} THEN <<>> ELSE <<After(HeadRest, FirstOf(">", HeadRest))>>,
        c |-> IF HasChance THEN "num" ELSE "unset",
        b |-> IF HasChance THEN Tail(BodyTerms) ELSE BodyTerms]
Machine == IF Verdict = "ok" THEN [v |-> "ok", l |-> acc.l, t |-> acc.t, r |-> acc.r, c |-> acc.c, b |-> acc.b] ELSE [v |-> Verdict]
MachineIsDeclared == Machine = Declared
=============================================================================
