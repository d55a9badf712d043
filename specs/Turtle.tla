------------------------------- MODULE Turtle -------------------------------
(* The turtle that draws strings: a machine that reads a string symbol by      *)
(* symbol.  Positions are exact: a position is the number of steps taken in    *)
(* each heading, a heading the number of net left turns (by delta degrees      *)
(* each), so that no arithmetic is rounded and the model holds for every       *)
(* delta.  known is the set of symbol names that the store given to the        *)
(* interpreter knows.                                                          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Syms,      \* the symbols strings are made of
          K          \* headings are -K..K
TurtleSyms == {"Forward", "Move", "+", "-", "[", "]"}
VARIABLES text, known, at, hd, stack, segs, failed
vars == <<text, known, at, hd, stack, segs, failed>>

\* at[h + K + 1]: how many steps were made with heading h
Origin == [k \in 1..2 * K + 1 |-> 0]
Step(p, h) == [p EXCEPT ![h + K + 1] = @ + 1]

Init == /\ text = <<>> /\ at = Origin /\ hd = 0 /\ stack = <<>> /\ segs = <<>> /\ failed = FALSE

Alive(s) == ~failed /\ s \in known
Forward == /\ at' = Step(at, hd) /\ segs' = Append(segs, [from |-> at, h |-> hd])
           /\ UNCHANGED <<hd, stack, failed>>
Move == at' = Step(at, hd) /\ UNCHANGED <<segs, hd, stack, failed>>
Left == hd' = hd + 1 /\ UNCHANGED <<at, stack, segs, failed>>
Right == hd' = hd - 1 /\ UNCHANGED <<at, stack, segs, failed>>
Push == stack' = <<[at |-> at, hd |-> hd]>> \o stack /\ UNCHANGED <<at, hd, segs, failed>>
Pop == IF stack = <<>> THEN failed' = TRUE /\ UNCHANGED <<at, hd, stack, segs>>
       ELSE /\ at' = stack[1].at /\ hd' = stack[1].hd /\ stack' = Tail(stack)
            /\ UNCHANGED <<segs, failed>>
Ignore == UNCHANGED <<at, hd, stack, segs, failed>>
Read(s) ==
  /\ text' = Append(text, s) /\ UNCHANGED known
  /\ IF ~Alive(s) THEN Ignore
     ELSE CASE s = "Forward" -> Forward [] s = "Move" -> Move
            [] s = "+" -> Left [] s = "-" -> Right
            [] s = "[" -> Push [] s = "]" -> Pop
            [] OTHER -> Ignore
Outcome == IF failed THEN [v |-> "error", segs |-> <<>>] ELSE [v |-> "ok", segs |-> segs]

\* -------------------------------------------------------------------------
\* What the design guarantees, checked by TLC on every string in the bounds.
Count(s) == Cardinality({n \in 1..Len(text) : text[n] = s})
OneSegmentPerForward == ~failed => Len(segs) = IF "Forward" \in known THEN Count("Forward") ELSE 0
StepsAreUnit == \A n \in 1..Len(segs) : segs[n].h \in -K..K
\* The error is exactly: some prefix closes more branches than it opens.
Excess(n) == Cardinality({m \in 1..n : text[m] = "]" /\ "]" \in known}) - Cardinality({m \in 1..n : text[m] = "[" /\ "[" \in known})
ErrorExactly == failed <=> \E n \in 1..Len(text) : Excess(n) > 0

\* The turtle of any string, as a function (for branches that are erased).
RECURSIVE Run(_, _, _, _, _)
Run(t, n, p, h, st) ==
  IF n > Len(t) THEN [at |-> p, hd |-> h]
  ELSE LET s == t[n] IN
       IF s \notin known THEN Run(t, n + 1, p, h, st)
       ELSE CASE s \in {"Forward", "Move"} -> Run(t, n + 1, Step(p, h), h, st)
              [] s = "+" -> Run(t, n + 1, p, h + 1, st)
              [] s = "-" -> Run(t, n + 1, p, h - 1, st)
              [] s = "[" -> Run(t, n + 1, p, h, <<[at |-> p, hd |-> h]>> \o st)
              [] s = "]" -> Run(t, n + 1, st[1].at, st[1].hd, Tail(st))
              [] OTHER -> Run(t, n + 1, p, h, st)
\* Where the branch closed at n was opened.
RECURSIVE OpenOf(_, _)
OpenOf(m, depth) == IF text[m] = "[" THEN (IF depth = 0 THEN m ELSE OpenOf(m - 1, depth - 1))
                    ELSE IF text[m] = "]" THEN OpenOf(m - 1, depth + 1) ELSE OpenOf(m - 1, depth)
Without(a, b) == SubSeq(text, 1, a - 1) \o SubSeq(text, b + 1, Len(text))
BranchesLeaveNoTrace ==
  (~failed /\ {"[", "]"} \subseteq known) =>
    \A n \in {m \in 1..Len(text) : text[m] = "]"} :
      Run(Without(OpenOf(n - 1, 0), n), 1, Origin, 0, <<>>) = [at |-> at, hd |-> hd]
=============================================================================
