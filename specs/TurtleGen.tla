----------------------------- MODULE TurtleGen -----------------------------
(* Every string up to the bound with every store of the given kinds; one test *)
(* per string.                                                                *)
EXTENDS Turtle, TLC, Json
CONSTANTS MaxLen, Stores
GInit == Init /\ known \in Stores
GNext == Len(text) < MaxLen /\ \E s \in Syms : Read(s)
GSpec == GInit /\ [][GNext]_vars
Full == {TurtleSyms}
OneMissing == {TurtleSyms \ {s} : s \in TurtleSyms}
AnySubset == SUBSET TurtleSyms
Seven == {"Forward", "Move", "+", "-", "[", "]", "X"}
Six == TurtleSyms
Five == {"Forward", "Move", "+", "[", "]"}
Four == {"Forward", "+", "[", "]"}
Emit == PrintT("@@" \o ToJson([text |-> text, known |-> known, k |-> K, out |-> Outcome]))
=============================================================================
