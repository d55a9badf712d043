------------------------------ MODULE Pipeline ------------------------------
(* From the text of a plant description to the picture: the description is     *)
(* read line by line (Plant), its axiom rewritten n times (LSystem), the       *)
(* result drawn symbol by symbol and the drawing placed on the canvas.  The    *)
(* turns are multiples of a quarter, so that every point is on a lattice; or   *)
(* they are by any angle ("any"), and a point is the number of steps taken in  *)
(* each direction, a direction the number of turns made (as in Turtle).        *)
EXTENDS Plant, TLC
CONSTANT Angles                 \* whether there are turns by any angle
VARIABLES phase, cur, done, k, pos, hd, stack, segs
pvars == <<phase, cur, done, k, pos, hd, stack, segs>>
all == <<vars, pvars>>

Num(s) == CHOOSE j \in 0..99 : ToString(j) = s
Quarters(d) == CASE d = "90" -> 1 [] d = "-90" -> 3 [] d = "180" -> 2 [] d = "270" -> 3 [] d = "0" -> 0 [] d = "450" -> 1 [] d = "-360" -> 0
Way(h) == <<<<0, 1>>, <<-1, 0>>, <<0, -1>>, <<1, 0>>>>[h + 1]
\* h is how many times the turtle turned left more often than right.
Step(p, h) == IF Angles THEN IF h \in DOMAIN p THEN [p EXCEPT ![h] = @ + 1] ELSE p @@ (h :> 1)
              ELSE <<p[1] + Way(h)[1], p[2] + Way(h)[2]>>
Start == IF Angles THEN <<>> ELSE <<0, 0>>
Left == IF Angles THEN hd + 1 ELSE (hd + Quarters(delta)) % 4
Right == IF Angles THEN hd - 1 ELSE (hd + 4 - Quarters(delta)) % 4

PInit == /\ Init /\ phase = "reading" /\ cur = <<>> /\ done = 0 /\ k = 1
         /\ pos = Start /\ hd = 0 /\ stack = <<>> /\ segs = <<>>
Faulty == bad \/ prods = <<>> \/ axiom = <<>>
ReadLine(x) == phase = "reading" /\ Read(x) /\ UNCHANGED pvars
Compile == /\ phase = "reading" /\ UNCHANGED <<vars, done, k, pos, hd, stack, segs>>
           /\ IF Faulty THEN phase' = "refused" /\ UNCHANGED cur ELSE phase' = "rewriting" /\ cur' = axiom[1]
Rewrite == /\ phase = "rewriting" /\ done < Num(n)
           /\ cur' = Once(Plain, cur) /\ done' = done + 1 /\ UNCHANGED <<vars, phase, k, pos, hd, stack, segs>>
Begin == phase = "rewriting" /\ done = Num(n) /\ phase' = "drawing" /\ UNCHANGED <<vars, cur, done, k, pos, hd, stack, segs>>
Ahead == Step(pos, hd)
Draw ==
  /\ phase = "drawing" /\ k <= Len(cur) /\ k' = k + 1 /\ UNCHANGED <<vars, cur, done>>
  /\ CASE cur[k] = "Forward" -> pos' = Ahead /\ segs' = Append(segs, <<pos, Ahead>>) /\ UNCHANGED <<phase, hd, stack>>
       [] cur[k] = "Move" -> pos' = Ahead /\ UNCHANGED <<phase, segs, hd, stack>>
       [] cur[k] = "+" -> hd' = Left /\ UNCHANGED <<phase, pos, stack, segs>>
       [] cur[k] = "-" -> hd' = Right /\ UNCHANGED <<phase, pos, stack, segs>>
       [] cur[k] = "[" -> stack' = <<<<pos, hd>>>> \o stack /\ UNCHANGED <<phase, pos, hd, segs>>
       [] cur[k] = "]" -> IF stack = <<>> THEN phase' = "refused" /\ UNCHANGED <<pos, hd, stack, segs>>
                          ELSE pos' = stack[1][1] /\ hd' = stack[1][2] /\ stack' = Tail(stack) /\ UNCHANGED <<phase, segs>>
       [] OTHER -> UNCHANGED <<phase, pos, hd, stack, segs>>
Finish == phase = "drawing" /\ k > Len(cur) /\ phase' = "drawn" /\ UNCHANGED <<vars, cur, done, k, pos, hd, stack, segs>>
Work == Compile \/ Rewrite \/ Begin \/ Draw \/ Finish
Over == phase \in {"refused", "drawn"}

\* -------------------------------------------------------------------------
\* Where on a canvas of w by h pixels the drawing lies if it is made to fit by its points
\* S: in thousandths of a pixel (as in Svg, which says why this is the right place).
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Placed(S, w, h) ==
  LET x0 == MinOf({q[1] : q \in S})  x1 == MaxOf({q[1] : q \in S})
      y0 == MinOf({q[2] : q \in S})  y1 == MaxOf({q[2] : q \in S})
      wide == x1 > x0 /\ (y1 = y0 \/ w * (y1 - y0) <= h * (x1 - x0))
      high == y1 > y0 /\ ~wide
      a == IF wide THEN w ELSE IF high THEN h ELSE 1
      b == IF wide THEN x1 - x0 ELSE IF high THEN y1 - y0 ELSE 1
      At(q) == <<(1000 * (w * b + a * (2 * q[1] - x0 - x1))) \div (2 * b), (1000 * (h * b - a * (2 * q[2] - y0 - y1))) \div (2 * b)>>
  IN [m \in 1..Len(segs) |-> <<At(segs[m][1]), At(segs[m][2])>>]
Ends == {segs[m][1] : m \in 1..Len(segs)} \cup {segs[m][2] : m \in 1..Len(segs)}
\* A drawing may have a point where the turtle started or stopped without drawing from there.
Fits(w, h) == {Placed(Ends \cup e, w, h) : e \in SUBSET {<<0, 0>>, pos}}
\* With any angles: what the lines' ends are, for whoever knows the angle.
Counts(p) == {<<h, p[h]>> : h \in DOMAIN p}
Exact == [m \in 1..Len(segs) |-> <<Counts(segs[m][1]), Counts(segs[m][2])>>]

\* -------------------------------------------------------------------------
\* Checked by TLC in PipelineGen.
Rewritten == phase \in {"rewriting", "drawing", "drawn"} => cur = Iterate(Plain, axiom[1], done) /\ done <= Num(n)
OnePerForward == Len(segs) = Cardinality({m \in 1..k - 1 : cur[m] = "Forward"})
Excess(m) == Cardinality({j \in 1..m : cur[j] = "]"}) - Cardinality({j \in 1..m : cur[j] = "["})
RefusedExactly == Over => (phase = "refused" <=> Faulty \/ \E m \in 1..Len(cur) : Excess(m) > 0)
\* Consecutive segments join unless something moved the turtle in between.
Joined == ~Angles => \A m \in 1..Len(segs) : LET d == <<segs[m][2][1] - segs[m][1][1], segs[m][2][2] - segs[m][1][2]>> IN d \in {Way(h) : h \in 0..3}
\* With any angles: a line is one step longer than the way to it, and no turn that was
\* never made is a direction.
Steps1(p) == LET RECURSIVE Sum(_)
                 Sum(D) == IF D = {} THEN 0 ELSE LET h == CHOOSE h \in D : TRUE IN p[h] + Sum(D \ {h})
             IN Sum(DOMAIN p)
ExactSteps == Angles => \A m \in 1..Len(segs) : /\ Steps1(segs[m][2]) = Steps1(segs[m][1]) + 1
                                               /\ DOMAIN segs[m][2] \subseteq -k..k
InsideCanvas == (phase = "drawn" /\ segs # <<>> /\ ~Angles) =>
  LET p == Placed(Ends, 40, 30) IN \A m \in 1..Len(p) : \A e \in {1, 2} : p[m][e][1] \in 0..40000 /\ p[m][e][2] \in 0..30000
=============================================================================
