------------------------------ MODULE PlaneGen ------------------------------
(* Every sequence of operations up to the bound, one test per sequence.       *)
EXTENDS Plane, TLC, Json
CONSTANTS MaxOps, Turns, Offsets, Scales, Knowns
VARIABLE log
GInit == Init /\ log = <<>>
GNext == /\ Len(log) < MaxOps /\ Do(Turns, Offsets, Scales, Knowns)
         /\ log' = Append(log, [op |-> op', v |-> v', a |-> a', p |-> p', path |-> path'])
GSpec == GInit /\ [][GNext]_<<vars, log>>
SomeTurns == {6, -6, 12, 1, -4, 25}
ManyTurns == {-30, -12, -6, -5, -1, 0, 1, 2, 3, 4, 6, 7, 12, 18, 24, 48, 47}
SomeOffsets == {V(2, -1)}
NoOffsets == {}
Emit == log # <<>> => PrintT("@@" \o ToJson([quarter |-> Quarter, log |-> log]))
\* only complete sequences: every shorter one is a prefix of one of these
EmitFull == Len(log) = MaxOps => Emit
=============================================================================
