-------------------------------- MODULE Plane --------------------------------
(* Vectors, points and paths of the plane on an integer lattice, as a machine  *)
(* of three registers (a vector, a point, a path) changed by the operations of *)
(* src/geometry.rs.  Turns by any number of units (Quarter units make a right  *)
(* angle) are exact: the vector is a lattice vector v and a remaining turn a   *)
(* of less than a right angle that has not been carried out on it.             *)
EXTENDS Integers, Sequences
CONSTANTS Quarter
VARIABLES v, a, p, path, op
vars == <<v, a, p, path, op>>

V(x, y) == [x |-> x, y |-> y]
Plus(s, t) == V(s.x + t.x, s.y + t.y)
Minus(s, t) == V(s.x - t.x, s.y - t.y)
Negated(s) == V(-s.x, -s.y)
Times(n, s) == V(n * s.x, n * s.y)
\* A quarter turn is counter-clockwise: up becomes left.
RECURSIVE Turned(_, _)
Turned(s, q) == IF q = 0 THEN s ELSE Turned(V(-s.y, s.x), q - 1)

Init == v = V(0, 1) /\ a = 0 /\ p = V(0, 0) /\ path = <<>> /\ op = <<"start", 0, 0>>
Still == a = 0
\* vector operations
Turn(k) == /\ LET t == a + k IN a' = t % Quarter /\ v' = Turned(v, (t \div Quarter) % 4)
           /\ op' = <<"turn", k, 0>> /\ UNCHANGED <<p, path>>
AddV(w) == Still /\ v' = Plus(v, w) /\ op' = <<"v+", w.x, w.y>> /\ UNCHANGED <<a, p, path>>
SubV(w) == Still /\ v' = Minus(v, w) /\ op' = <<"v-", w.x, w.y>> /\ UNCHANGED <<a, p, path>>
NegV == v' = Negated(v) /\ op' = <<"-v", 0, 0>> /\ UNCHANGED <<a, p, path>>
FromPoint == v' = p /\ a' = 0 /\ op' = <<"v=p", 0, 0>> /\ UNCHANGED <<p, path>>
\* Known vectors: up, down, zero and the one by default.
Known == <<V(0, 1), V(0, -1), V(0, 0), V(0, 0)>>
KnownV(k) == v' = Known[k] /\ a' = 0 /\ op' = <<"v=", k, 0>> /\ UNCHANGED <<p, path>>
\* point operations
KnownP(k) == p' = V(0, 0) /\ op' = <<"p=", k, 0>> /\ UNCHANGED <<v, a, path>>
PlusV == Still /\ p' = Plus(p, v) /\ op' = <<"p+v", 0, 0>> /\ UNCHANGED <<v, a, path>>
MinusV == Still /\ p' = Minus(p, v) /\ op' = <<"p-v", 0, 0>> /\ UNCHANGED <<v, a, path>>
AddP(w) == p' = Plus(p, w) /\ op' = <<"p+", w.x, w.y>> /\ UNCHANGED <<v, a, path>>
SubP(w) == p' = Minus(p, w) /\ op' = <<"p-", w.x, w.y>> /\ UNCHANGED <<v, a, path>>
NegP == p' = Negated(p) /\ op' = <<"-p", 0, 0>> /\ UNCHANGED <<v, a, path>>
\* division by 1/n, so that the lattice is not left
DivP(n) == p' = Times(n, p) /\ op' = <<"p/", n, 0>> /\ UNCHANGED <<v, a, path>>
FromVector == Still /\ p' = v /\ op' = <<"p=v", 0, 0>> /\ UNCHANGED <<v, a, path>>
\* path operations
Push == path' = Append(path, p) /\ op' = <<"push", 0, 0>> /\ UNCHANGED <<v, a, p>>
Offset == Still /\ path' = [n \in 1..Len(path) |-> Plus(path[n], v)] /\ op' = <<"path+v", 0, 0>> /\ UNCHANGED <<v, a, p>>

Do(turns, ws, ns, knowns) ==
  \/ \E k \in turns : Turn(k)
  \/ \E w \in ws : AddV(w) \/ SubV(w) \/ AddP(w) \/ SubP(w)
  \/ \E n \in ns : DivP(n)
  \/ \E k \in knowns : KnownV(k) \/ (k \in 3..4 /\ KnownP(k))
  \/ NegV \/ FromPoint \/ PlusV \/ MinusV \/ NegP \/ FromVector \/ Push \/ Offset

\* -------------------------------------------------------------------------
\* Laws of the design, as properties of every step.
Square(s) == s.x * s.x + s.y * s.y
TurnsKeepLength == [][op'[1] = "turn" => Square(v') = Square(v)]_vars
\* Turning by k is turning by any i and then by k - i.
Res(s, b, k) == [v |-> Turned(s, ((b + k) \div Quarter) % 4), a |-> (b + k) % Quarter]
TurnsCompose == [][op'[1] = "turn" => \A i \in -2 * Quarter..2 * Quarter :
                     LET f == Res(v, a, i) IN Res(f.v, f.a, op'[2] - i) = [v |-> v', a |-> a']]_vars
FourQuartersAreNone == Res(v, a, 4 * Quarter) = [v |-> v, a |-> a]
NegationIsHalfTurn == Res(v, a, 2 * Quarter).v = Negated(v)
OffsetKeepsShape == [][op'[1] = "path+v" => /\ Len(path') = Len(path)
                       /\ \A m, n \in 1..Len(path) : Minus(path'[m], path'[n]) = Minus(path[m], path[n])]_vars
=============================================================================
