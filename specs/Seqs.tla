-------------------------------- MODULE Seqs --------------------------------
(* Production strings (src/strings.rs) and paths (src/geometry.rs) as values:  *)
(* two variables of a program, a and b, and everything a program can do with   *)
(* them.  They hold what was put in, in order, and are independent values.     *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Elems, MaxList, MaxOps
VARIABLES a, b, log
vars == <<a, b, log>>
view == <<a, b, Len(log)>>
Lists == UNION {[1..n -> Elems] : n \in 0..MaxList}

Init == a = <<>> /\ b = <<>> /\ log = <<>>
Did(o, x) == Len(log) < MaxOps /\ log' = Append(log, [o |-> o, x |-> x])
Fresh == a' = <<>> /\ b' = b /\ Did("fresh", <<>>)
Of(s) == a' = s /\ b' = b /\ Did("of", s)                       \* made of a list
One(e) == a' = <<e>> /\ b' = b /\ Did("one", <<e>>)             \* made of one element
Push(e) == a' = Append(a, e) /\ b' = b /\ Did("push", <<e>>)
Again == a' = a /\ b' = b /\ Did("again", <<>>)                 \* collected from an iteration of itself
Copy == b' = a /\ a' = a /\ Did("copy", <<>>)
Move == b' = a /\ a' = <<>> /\ Did("move", <<>>)
Swap == b' = a /\ a' = b /\ Did("swap", <<>>)
Do(o, x) == CASE o = "fresh" -> Fresh [] o = "of" -> Of(x) [] o = "one" -> One(x[1]) [] o = "push" -> Push(x[1])
              [] o = "again" -> Again [] o = "copy" -> Copy [] o = "move" -> Move [] o = "swap" -> Swap
Next == Fresh \/ (\E s \in Lists : Of(s)) \/ (\E e \in Elems : One(e) \/ Push(e)) \/ Again \/ Copy \/ Move \/ Swap
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* What is read back: n-th element, and that nothing else is there.
At(s, n) == IF n \in 1..Len(s) THEN s[n] ELSE "none"
\* A copy is a value of its own: what is done to a alone leaves b as it was.
Last == log'[Len(log')].o
CopiesAreIndependent == [][Last \notin {"copy", "move", "swap"} => b' = b]_vars
\* What was pushed is last, and everything before is as it was.
PushesAtTheEnd == [][Last = "push" => /\ Len(a') = Len(a) + 1
                                      /\ \A n \in 1..Len(a) : At(a', n) = At(a, n)]_vars
OnlyWhatWasPutIn == \A n \in 1..Len(a) : \E k \in 1..Len(log) : \E m \in 1..Len(log[k].x) : log[k].x[m] = a[n]
=============================================================================
