------------------------------ MODULE ArgsTrace -----------------------------
(* Recorded runs of the tool: each does what its command line means.          *)
EXTENDS Args, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, k, s
Ev == Trace[i]
Set(q) == {q[j] : j \in 1..Len(q)}
\* what is seen of a run: its exit status, whether either stream got anything, the files
\* that are new, and the symbols that were shown if it was to show them
Fits(d) ==
  /\ Ev.exit = d.exit
  /\ d.exit = "failure" => Ev.stderr
  /\ d.shows \in {"help", "version", "alphabet"} => Ev.stdout
  /\ Ev.pictures = (IF d.picture = NoPicture THEN <<>> ELSE <<d.picture>>)
  /\ d.shows = "alphabet" => /\ Set(Ev.terminals) = Alphabet.terminals /\ Len(Ev.terminals) = Cardinality(Alphabet.terminals)
                             /\ Set(Ev.productions) = Alphabet.productions /\ Len(Ev.productions) = Cardinality(Alphabet.productions)
                             /\ Ev.strange = <<>>
Init == i = 1 /\ k = 1 /\ s = Start
Reads == k <= Len(Ev.line) /\ s' = Read(s, Ev.line[k]) /\ k' = k + 1 /\ UNCHANGED i
Done == /\ k > Len(Ev.line)
        /\ PrintT((IF Fits(Does(s)) THEN "@@ACC " ELSE "@@REJ ") \o ToString(i)
                  \o (IF Fits(Does(s)) THEN "" ELSE " should be " \o ToString(Does(s))))
        /\ i' = i + 1 /\ k' = 1 /\ s' = Start
Next == i <= Len(Trace) /\ (Reads \/ Done)
Spec == Init /\ [][Next]_<<i, k, s>>
=============================================================================
