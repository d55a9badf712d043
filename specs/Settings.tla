------------------------------ MODULE Settings ------------------------------
(* What an interpretation and its run settings hold (src/interpretation.rs,    *)
(* abop.rs, svg.rs, RunSettings in src/system.rs).  A program makes            *)
(* interpretations in all the ways there are, wraps them into drawings, copies *)
(* them, and takes run settings from them or makes some by itself.  Every way  *)
(* of asking says what was put in, or what holds when nothing was.             *)
(*                                                                             *)
(* Counts, angles and sizes are opaque names.                                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Counts, Angles, Sizes, MaxOps
VARIABLES it, other, rs, log
vars == <<it, other, rs, log>>
view == <<it, other, rs, Len(log)>>

\* What draws: a turtle; `own`, an interpretation that says nothing about its runs;
\* `saying`, one that does; and one that does nothing.
Kinds == {"turtle", "own", "saying", "null"}
NoSize == <<>>
Turtle(n, d) == [of |-> "turtle", n |-> n, d |-> d, size |-> NoSize]
ATurtle == Turtle("five", "a22.5")
Own == [of |-> "own", n |-> "-", d |-> "-", size |-> NoSize]
Saying(n) == [of |-> "saying", n |-> n, d |-> "-", size |-> NoSize]
Null == [of |-> "null", n |-> "-", d |-> "-", size |-> NoSize]
ByDefault(of) == CASE of = "turtle" -> ATurtle [] of = "own" -> Own [] of = "saying" -> Saying("three") [] of = "null" -> Null
Drawing(x, w, h) == [x EXCEPT !.size = <<w, h>>]
IsDrawing(x) == x.size # NoSize
Drawers == {"turtle", "own", "saying"}

Init == it = ATurtle /\ other = Null /\ rs = "ten" /\ log = <<>>
Did(o, x) == Len(log) < MaxOps /\ log' = Append(log, [o |-> o, x |-> x])
Default(of) == it' = ByDefault(of) /\ UNCHANGED <<other, rs>> /\ Did("default", of)
MakeTurtle(x) == it' = Turtle(x.n, x.d) /\ UNCHANGED <<other, rs>> /\ Did("turtle", x)
MakeSaying(n) == it' = Saying(n) /\ UNCHANGED <<other, rs>> /\ Did("saying", n)
\* A drawing with the interpretation that is there; one of a size; one of no size.
Wrap(x) == ~IsDrawing(it) /\ it.of \in Drawers /\ it' = Drawing(it, x.w, x.h) /\ UNCHANGED <<other, rs>> /\ Did("wrap", x)
Sized(x) == it' = Drawing(ByDefault(x.of), x.w, x.h) /\ UNCHANGED <<other, rs>> /\ Did("sized", x)
Unsized(of) == it' = Drawing(ByDefault(of), "fivehundred", "fivehundred") /\ UNCHANGED <<other, rs>> /\ Did("unsized", of)
Copy == other' = it /\ UNCHANGED <<it, rs>> /\ Did("copy", 0)
Swap == it' = other /\ other' = it /\ UNCHANGED rs /\ Did("swap", 0)
Runs(x) == IF x.of \in {"turtle", "saying"} THEN x.n ELSE "ten"
Take == rs' = Runs(it) /\ UNCHANGED <<it, other>> /\ Did("take", 0)
RunsDefault == rs' = "ten" /\ UNCHANGED <<it, other>> /\ Did("runs", 0)
RunsFor(n) == rs' = n /\ UNCHANGED <<it, other>> /\ Did("for", n)
RunsSet(n) == rs' = n /\ UNCHANGED <<it, other>> /\ Did("set", n)
Do(o, x) == CASE o = "default" -> Default(x) [] o = "turtle" -> MakeTurtle(x) [] o = "saying" -> MakeSaying(x) [] o = "wrap" -> Wrap(x)
              [] o = "sized" -> Sized(x) [] o = "unsized" -> Unsized(x) [] o = "copy" -> Copy [] o = "swap" -> Swap
              [] o = "take" -> Take [] o = "runs" -> RunsDefault [] o = "for" -> RunsFor(x) [] o = "set" -> RunsSet(x)
Next == \/ \E of \in Kinds : Default(of)
        \/ \E n \in Counts, d \in Angles : MakeTurtle([n |-> n, d |-> d])
        \/ \E n \in Counts : MakeSaying(n) \/ RunsFor(n) \/ RunsSet(n)
        \/ \E w, h \in Sizes : Wrap([w |-> w, h |-> h]) \/ \E of \in Drawers : Sized([of |-> of, w |-> w, h |-> h])
        \/ \E of \in Drawers : Unsized(of)
        \/ Copy \/ Swap \/ Take \/ RunsDefault
Spec == Init /\ [][Next]_vars

\* What one sees of an interpretation.
Alphabet(of) == IF of = "turtle" THEN {"[", "]", "+", "-", "Forward", "Move", "X"} ELSE IF of = "null" THEN {} ELSE {"Own"}
Only(x, v) == IF IsDrawing(x) THEN "-" ELSE v               \* a drawing shows its own settings only
Seen(x) == [of |-> x.of, n |-> Only(x, IF x.of = "turtle" THEN x.n ELSE "-"), d |-> Only(x, x.d), size |-> x.size, runs |-> Runs(x), alphabet |-> Alphabet(x.of), productions |-> 0,
            drawn |-> x.d,                                     \* the angle by which a turn turns
            canvas |-> x.size,                                 \* the size of the document
            \* interpreting by default
            byDefault |-> IF IsDrawing(x) THEN <<"fivehundred", "fivehundred">> ELSE NoSize, drawnByDefault |-> ByDefault(x.of).d]
-----------------------------------------------------------------------------
\* A size is kept by what is drawn with; wrapping changes neither the runs nor the angle.
Latest == log'[Len(log')].o
WrapKeeps == Latest = "wrap" => (Runs(it') = Runs(it) /\ it'.d = it.d /\ it'.of = it.of)
CopyKeeps == Latest = "copy" => (other' = it /\ it' = it)
OnlyRuns == Latest \in {"take", "runs", "for", "set"} => (it' = it /\ other' = other)
RunsStay == Latest \notin {"take", "runs", "for", "set"} => rs' = rs
Keeps == [][WrapKeeps /\ CopyKeeps /\ OnlyRuns /\ RunsStay]_vars
\* Asking what was made by default says the same as the default.
DefaultsAgree == \A of \in Kinds : Runs(ByDefault(of)) \in {"ten", "five", "three"} /\ (Runs(ByDefault(of)) = "five" <=> of = "turtle")
=============================================================================
