-------------------------------- MODULE Parts -------------------------------
(* Productions made from parts (src/productions.rs): two variables of a        *)
(* program, p and q, each a production [l, t, r, bs]: left context (<<>>: none, *)
(* <<s>>: the string s), target, right context, and the bodies [c, b] with      *)
(* their chances in percent (-1: not set).                                      *)
EXTENDS LSystem, Integers, TLC
CONSTANTS Heads, Strings, Chances, BadChances, MaxOps
VARIABLES p, q, log
vars == <<p, q, log>>
view == <<p, q, Len(log)>>
Bodies == [c : Chances, b : Strings]
Start == [l |-> <<>>, t |-> "A", r |-> <<>>, bs |-> <<[c |-> -1, b |-> <<>>]>>]
Of(hd, bd) == [l |-> hd.l, t |-> hd.t, r |-> hd.r, bs |-> <<bd>>]
\* A production that can be written as text has no empty context.
Textual(hd) == hd.l # <<<<>>>> /\ hd.r # <<<<>>>>

Init == p = Start /\ q = Start /\ log = <<>>
Did(o, x) == Len(log) < MaxOps /\ log' = Append(log, [o |-> o, x |-> x])
Make(hd, bd) == p' = Of(hd, bd) /\ q' = q /\ Did("make", Of(hd, bd))
Parse(hd, bd) == Textual(hd) /\ p' = Of(hd, bd) /\ q' = q /\ Did("parse", Of(hd, bd))
Add(bd) == p' = [p EXCEPT !.bs = Append(@, bd)] /\ q' = q /\ Did("add", bd)
Merge == p' = [p EXCEPT !.bs = @ \o q.bs] /\ q' = q /\ Did("merge", 0)     \* all bodies of q
Refuse(c, s) == UNCHANGED <<p, q>> /\ Did("refuse", [c |-> c, b |-> s])    \* not between 0 and 1
Copy == q' = p /\ p' = p /\ Did("copy", 0)
Swap == q' = p /\ p' = q /\ Did("swap", 0)
Do(o, x) == CASE o = "make" -> Make(x, x.bs[1]) [] o = "parse" -> Parse(x, x.bs[1]) [] o = "add" -> Add(x)
              [] o = "merge" -> Merge [] o = "refuse" -> Refuse(x.c, x.b) [] o = "copy" -> Copy [] o = "swap" -> Swap
Next == \/ \E hd \in Heads, bd \in Bodies : Make(hd, bd) \/ Parse(hd, bd)
        \/ \E bd \in Bodies : Add(bd)
        \/ \E c \in BadChances, s \in Strings : Refuse(c, s)
        \/ Merge \/ Copy \/ Swap
Spec == Init /\ [][Next]_vars

\* Productions are equal when their heads are.
Same == HeadOf(p) = HeadOf(q)
\* All symbols of a production, in order.
RECURSIVE Flat(_)
Flat(bs) == IF bs = <<>> THEN <<>> ELSE Head(bs).b \o Flat(Tail(bs))
Ctxt(c) == IF c = <<>> THEN <<>> ELSE c[1]
Symbols(x) == Ctxt(x.l) \o <<x.t>> \o Ctxt(x.r) \o Flat(x.bs)
-----------------------------------------------------------------------------
Last == log'[Len(log')].o
AtLeastOneBody == Len(p.bs) > 0
KeepsHead == Last \in {"add", "merge", "refuse"} => (HeadOf(p') = HeadOf(p) /\ q' = q)
KeepsBodies == Last \in {"add", "merge"} => SubSeq(p'.bs, 1, Len(p.bs)) = p.bs
HeadsStay == [][KeepsHead]_vars
BodiesStay == [][KeepsBodies]_vars
=============================================================================
