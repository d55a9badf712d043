------------------------------ MODULE CliTrace ------------------------------
(* Recorded histories of runs in one directory: every run is one Cli run.     *)
EXTENDS Cli, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, k
Hist == Trace[i].h
Ev == Hist[k]
\* the files as observed, those not named being absent
Observed == [f \in Files |-> IF f \in DOMAIN Ev.files THEN Ev.files[f] ELSE "absent"]
Rest == run' = Idle /\ pc' = "idle" /\ exit' = "none" /\ err' = FALSE
TInit == fs = [f \in Files |-> "absent"] /\ run = Idle /\ pc = "idle" /\ exit = "none" /\ err = FALSE /\ i = 1 /\ k = 1
OneRun == /\ k <= Len(Hist)
          /\ Ev.exit = (IF Succeeds(Ev.run) THEN "success" ELSE "failure")
          /\ (Ev.exit = "failure" /\ Ev.run.terminal # "none" => Ev.stderr)
          /\ Ev.others = <<>>
          /\ Observed = After(fs, Ev.run)
          /\ fs' = Observed /\ Rest /\ k' = k + 1 /\ UNCHANGED i
Reset == fs' = [f \in Files |-> "absent"] /\ Rest /\ k' = 1 /\ i' = i + 1
Rejects == k <= Len(Hist) /\ ~ENABLED OneRun /\ Reset /\ PrintT("@@REJ " \o ToString(i) \o " at run " \o ToString(k))
Ends == k > Len(Hist) /\ Reset /\ PrintT("@@ACC " \o ToString(i))
TNext == i <= Len(Trace) /\ (OneRun \/ Rejects \/ Ends)
TSpec == TInit /\ [][TNext]_<<vars, i, k>>
=============================================================================
