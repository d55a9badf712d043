------------------------------- MODULE CliGen -------------------------------
(* Every run over a directory with or without old files.                      *)
EXTENDS Cli, Json
CONSTANTS RunInputs, RunOutputs, RunSizes, RunTerminals
SameEverywhere == \A f, g \in Files : fs[f] = fs[g]
GInit == Init /\ SameEverywhere
Configs == [input : RunInputs, output : RunOutputs, size : RunSizes, verbose : BOOLEAN, terminal : RunTerminals]
GNext == (fs \in [Files -> {"absent", "old"}] /\ \E c \in Configs : Start(c)) \/ Steps
GSpec == GInit /\ [][GNext]_vars /\ WF_vars(Steps)
Emit == pc = "usage" => PrintT("@@" \o ToJson([run |-> run, before |-> fs[Target("default")],
            success |-> Succeeds(run), target |-> Target(run.output)]))
SomeOutputs == {"pic.png", "default", "none/pic.svg", "full"}
TwoOutputs == {"default", "none/pic.svg"}
OneOutput == {"pic.svg"}
Fine == {"fine"}
Poor == {"noout", "none"}
SomeSizes == {"", "w=640 h=48"}
=============================================================================
