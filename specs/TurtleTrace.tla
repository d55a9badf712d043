---------------------------- MODULE TurtleTrace ----------------------------
(* Recorded drawings of long strings.  The turn angle of a record is m/4 of   *)
(* 90 degrees (base 16: 22.5 degrees) or m/3 of 90 degrees (base 12: 30       *)
(* degrees) or m right angles (base 4); lengths are in millionths of a step   *)
(* (base 4: thousandths, for drawings that go far), and a recorded point may  *)
(* be as far from the exact one as the rounding of each step allows.          *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, k, pos, hd, stack, n, why
vars == <<i, k, pos, hd, stack, n, why>>
Ev == Trace[i]
Abs(x) == IF x < 0 THEN -x ELSE x
Quarter16 == <<1000000, 923880, 707107, 382683, 0>>     \* cosines of 0, 22.5, .. 90 degrees
Quarter12 == <<1000000, 866025, 500000, 0>>             \* cosines of 0, 30, 60, 90 degrees
Quarter4 == <<1000, 0>>                                 \* cosines of 0, 90 degrees
Cos(a) == LET q == CASE Ev.base = 16 -> Quarter16 [] Ev.base = 12 -> Quarter12 [] Ev.base = 4 -> Quarter4
              p == Ev.base \div 4
              b == a % Ev.base
              c == IF b > 2 * p THEN Ev.base - b ELSE b
          IN IF c <= p THEN q[c + 1] ELSE -q[2 * p - c + 1]
Sin(a) == Cos(Ev.base \div 4 - a)
\* Heading h: up, turned h times m steps counter-clockwise.
Unit(h) == [x |-> -Sin(h * Ev.m), y |-> Cos(h * Ev.m)]
Tol == IF Ev.base = 4 THEN 1 ELSE 10 + 2 * Len(Ev.text)
Near(p, q) == Abs(p.x - q[1]) <= Tol /\ Abs(p.y - q[2]) <= Tol
Ran(q) == {q[x] : x \in 1..Len(q)}
Known(s) == s \in Ran(Ev.known)

Fresh == k' = 1 /\ pos' = [x |-> 0, y |-> 0] /\ hd' = 0 /\ stack' = <<>> /\ n' = 0 /\ why' = ""
TInit == i = 1 /\ k = 1 /\ pos = [x |-> 0, y |-> 0] /\ hd = 0 /\ stack = <<>> /\ n = 0 /\ why = ""
Sym == Ev.text[k]
Go == [x |-> pos.x + Unit(hd).x, y |-> pos.y + Unit(hd).y]
Draws == n < Len(Ev.segs) /\ Near(pos, Ev.segs[n + 1][1]) /\ Near(Go, Ev.segs[n + 1][2])
Read ==
  /\ k <= Len(Ev.text) /\ why = "" /\ k' = k + 1 /\ UNCHANGED i
  /\ CASE ~Known(Sym) -> UNCHANGED <<pos, hd, stack, n, why>>
       [] Sym = "Forward" -> /\ pos' = Go /\ n' = n + 1 /\ UNCHANGED <<hd, stack>>
                             /\ why' = IF Ev.v # "ok" \/ Draws THEN "" ELSE "segment " \o ToString(n + 1)
       [] Sym = "Move" -> pos' = Go /\ UNCHANGED <<hd, stack, n, why>>
       [] Sym = "+" -> hd' = hd + 1 /\ UNCHANGED <<pos, stack, n, why>>
       [] Sym = "-" -> hd' = hd - 1 /\ UNCHANGED <<pos, stack, n, why>>
       [] Sym = "[" -> stack' = <<[p |-> pos, h |-> hd]>> \o stack /\ UNCHANGED <<pos, hd, n, why>>
       [] Sym = "]" -> IF stack = <<>> THEN why' = (IF Ev.v = "error" THEN "error" ELSE "no error") /\ UNCHANGED <<pos, hd, stack, n>>
                       ELSE pos' = stack[1].p /\ hd' = stack[1].h /\ stack' = Tail(stack) /\ UNCHANGED <<n, why>>
       [] OTHER -> UNCHANGED <<pos, hd, stack, n, why>>
Done == k > Len(Ev.text) \/ why # ""
Accepted == \/ why = "error"
            \/ why = "" /\ Ev.v = "ok" /\ n = Len(Ev.segs)
Judge == /\ Done
         /\ PrintT(IF Accepted THEN "@@ACC " \o ToString(i) ELSE "@@REJ " \o ToString(i) \o " at symbol " \o ToString(k - 1) \o " " \o why)
         /\ i' = i + 1 /\ Fresh
TNext == i <= Len(Trace) /\ (Read \/ Judge)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
