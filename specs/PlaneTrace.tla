----------------------------- MODULE PlaneTrace -----------------------------
(* Recorded sequences of operations: turns in whole degrees (Quarter = 90);    *)
(* values are the real code's, rounded to the lattice, and compared whenever   *)
(* no turn is pending (off says that a value was not near the lattice).        *)
EXTENDS Plane, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, k
Log == Trace[i].log
Ev == Log[k]
W == V(Ev.op[2], Ev.op[3])
TInit == Init /\ i = 1 /\ k = 1
Call == CASE Ev.op[1] = "turn" -> Turn(Ev.op[2])
          [] Ev.op[1] = "v+" -> AddV(W) [] Ev.op[1] = "v-" -> SubV(W)
          [] Ev.op[1] = "-v" -> NegV [] Ev.op[1] = "v=p" -> FromPoint
          [] Ev.op[1] = "v=" -> KnownV(Ev.op[2]) [] Ev.op[1] = "p=" -> KnownP(Ev.op[2])
          [] Ev.op[1] = "p+v" -> PlusV [] Ev.op[1] = "p-v" -> MinusV
          [] Ev.op[1] = "p+" -> AddP(W) [] Ev.op[1] = "p-" -> SubP(W)
          [] Ev.op[1] = "-p" -> NegP [] Ev.op[1] = "p/" -> DivP(Ev.op[2])
          [] Ev.op[1] = "p=v" -> FromVector [] Ev.op[1] = "push" -> Push
          [] Ev.op[1] = "path+v" -> Offset
Pair(s) == <<s.x, s.y>>
Agrees == /\ ~Ev.off
          /\ a' = 0 => Ev.v = Pair(v')
          /\ Ev.p = Pair(p')
          /\ Ev.path = [n \in 1..Len(path') |-> Pair(path'[n])]
Reset == v' = V(0, 1) /\ a' = 0 /\ p' = V(0, 0) /\ path' = <<>> /\ op' = <<"start", 0, 0>> /\ k' = 1 /\ i' = i + 1
Accepts == k <= Len(Log) /\ Call /\ Agrees /\ k' = k + 1 /\ UNCHANGED i
Rejects == k <= Len(Log) /\ ~ENABLED Accepts /\ Reset /\ PrintT("@@REJ " \o ToString(i) \o " at operation " \o ToString(k) \o " " \o ToString(Ev.op))
Ends == k > Len(Log) /\ Reset /\ PrintT("@@ACC " \o ToString(i))
TNext == i <= Len(Trace) /\ (Accepts \/ Rejects \/ Ends)
TSpec == TInit /\ [][TNext]_<<vars, i, k>>
=============================================================================
