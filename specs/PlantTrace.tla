----------------------------- MODULE PlantTrace -----------------------------
(* Recorded parses of long descriptions, read line by line with Plant's action. *)
EXTENDS Plant, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Ev == Trace[i]
Ran(q) == {q[j] : j \in 1..Len(q)}
TInit == Init /\ i = 1
TRead == Len(lines) < Len(Ev.lines) /\ Read(Ev.lines[Len(lines) + 1]) /\ UNCHANGED i
Want == Meaning
Agrees == /\ Ev.got.v = Want.v
          /\ Want.v = "ok" =>
               /\ Ev.got.n = Want.n /\ Ev.got.delta = Want.delta /\ Ev.got.axiom = Want.axiom
               /\ Ev.got.prods = Want.prods /\ Ran(Ev.got.alphabet) = Want.alphabet /\ Ev.got.count = Cardinality(Want.alphabet)
               /\ Single => \A j \in 1..Len(Ev.got.steps) : j <= Len(Want.steps) => Ev.got.steps[j] = Want.steps[j]
Judge == /\ Len(lines) = Len(Ev.lines)
         /\ PrintT(IF Agrees THEN "@@ACC " \o ToString(i) ELSE "@@REJ " \o ToString(i) \o " the meaning is " \o ToString(Want))
         /\ i' = i + 1 /\ lines' = <<>> /\ n' = "2" /\ delta' = "5" /\ axiom' = <<>> /\ prods' = <<>> /\ bad' = FALSE
TNext == i <= Len(Trace) /\ (TRead \/ Judge)
TSpec == TInit /\ [][TNext]_<<vars, i>>
=============================================================================
