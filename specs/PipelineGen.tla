---------------------------- MODULE PipelineGen ----------------------------
EXTENDS Pipeline, TLC, Json
CONSTANTS MaxLines, Lines
L(f, v) == [k |-> f, v |-> v]
Q(l, t, r, b) == L("P", P(l, t, r, b))
Some == <<L("n", "1"), L("n", "3"), L("d", "90"), L("d", "-90"), L("d", "180"), L("i", "one"), L("I", <<"Move", "X", "+", "X">>),
         L("p", "grow"), Q(<<>>, "X", <<>>, <<"Forward", "[", "+", "X", "]", "Forward">>), Q(<<<<"Forward">>>>, "X", <<>>, <<"X", "]">>),
         Q(<<>>, "Forward", <<>>, <<"Forward", "-", "Move", "Forward">>), Q(<<>>, "X", <<<<"+">>>>, <<>>)>>
AnyAngle == <<L("n", "0"), L("n", "3"), L("d", "any"), L("i", "one"), L("I", <<"X", "+", "Forward", "-", "X">>),
         Q(<<>>, "X", <<>>, <<"Forward", "[", "+", "X", "]", "Move", "+", "X">>), Q(<<>>, "X", <<>>, <<"-", "-", "Forward", "X">>),
         Q(<<>>, "Forward", <<>>, <<"Forward", "+", "Forward", "[", "-", "Move", "Forward", "]">>), Q(<<<<"+">>>>, "X", <<>>, <<"+", "+", "+", "Forward">>)>>
\* The delta is always written: 5 degrees are no quarter turn.
GNext == (Len(lines) < MaxLines /\ \E j \in 1..Len(Lines) : ReadLine(Lines[j])) \/ ((Of("d") # <<>> \/ Faulty) /\ Single /\ Work)
GSpec == PInit /\ [][GNext]_all
Emit == Over => PrintT("@@" \o ToJson([lines |-> lines, v |-> IF phase = "drawn" THEN "ok" ELSE "error", forwards |-> Len(segs),
          fits |-> IF Angles THEN [w |-> 400, h |-> 300, exact |-> Exact, end |-> Counts(pos)]
                   ELSE [w |-> 120, h |-> 90, places |-> IF segs = <<>> THEN {} ELSE Fits(120, 90)]]))
=============================================================================
