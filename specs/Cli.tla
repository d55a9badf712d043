--------------------------------- MODULE Cli ---------------------------------
(* The interpret command of the lsystem tool (src/bin/lsystem): one run reads  *)
(* the plant file, derives, draws and saves, over a directory of files.        *)
(* A run's settings: [input, output, size, verbose, terminal]. The terminal is   *)
(* "fine", "noout" (standard output cannot be written) or "none" (neither can    *)
(* standard error): it decides nothing, and an error is only seen if it can be.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

\* where the fault of an input shows, "none" if there is none
Stage(in) == CASE in \in {"missing", "directory", "notutf8"} -> "read"
               [] in \in {"empty", "comments", "noprods", "noaxiom", "badsetting", "badline", "badnumber", "hugenumber", "badchance"} -> "parse"
               [] in \in {"overfull"} -> "derive"
               [] in \in {"unmatched", "grownunmatched"} -> "draw"
               [] OTHER -> "none"
GoodInputs == {"plain", "tree", "erased", "zero", "crlf", "bytesname", "big", "many", "deep", "late", "last"}
BadInputs == {"missing", "directory", "notutf8", "empty", "comments", "noprods", "noaxiom", "badsetting", "badline", "badnumber",
              "hugenumber", "badchance", "overfull", "unmatched", "grownunmatched"}
Inputs == GoodInputs \cup BadInputs

\* the file that the drawing is saved to
Target(o) == CASE o \in {"pic.svg", "pic.png", "pic", "pic.", "pic.svgz"} -> "pic.svg"
               [] o = "default" -> "out.svg"
               [] o = "pic.tar.gz" -> "pic.tar.svg"
               [] o \in {"sub.d/pic", "sub.d/pic.svg"} -> "sub.d/pic.svg"
               [] o = "svg" -> "svg.svg"
               [] o = "folder" -> "folder.svg"
               [] o = "none/pic.svg" -> "none/pic.svg"
               [] o = "bytes" -> "bytes.svg"
               [] o = "pic.SVG" -> "pic.SVG"          \* it has the extension already
               [] o = ".svg" -> ".svg.svg"            \* a name that starts with a dot is no extension
               [] o = "full" -> "full.svg"
               [] o = "long" -> "long.svg"            \* a name of more than two hundred characters
               [] o = "toolong" -> "none/pic.svg"     \* with .svg it is longer than a name can be
               [] o \in {"up", "nothing"} -> "none/pic.svg"
Outputs == {"pic.svg", "pic.png", "pic", "pic.", "pic.svgz", "default", "pic.tar.gz", "sub.d/pic", "sub.d/pic.svg", "svg", "folder", "none/pic.svg", "bytes",
            "pic.SVG", ".svg", "full", "long", "toolong", "up", "nothing"}
Unwritable == {"folder.svg", "none/pic.svg", "full.svg"}   \* a directory; nothing that can be made; a full disk
Writable(f) == f \notin Unwritable
Files == {Target(o) : o \in Outputs} \ Unwritable
BadSizes == {"w=x", "h=-1", "w=1.5"}
Sizes == {"", "w=300", "h=200", "w=640 h=48", "w=70000 h=3"} \cup BadSizes
Drawing(c) == c.input \o "/" \o c.size

VARIABLES fs,      \* file -> "absent", "old" or the name of a drawing
          run,     \* the run under way: its settings
          pc, exit, err
vars == <<fs, run, pc, exit, err>>

Terminals == {"fine", "noout", "none"}
Idle == [input |-> "", output |-> "", size |-> "", verbose |-> FALSE, terminal |-> "fine"]
Init == fs \in [Files -> {"absent", "old"}] /\ run = Idle /\ pc = "idle" /\ exit = "none" /\ err = FALSE
Start(c) == pc = "idle" /\ run' = c /\ pc' = "usage" /\ exit' = "none" /\ err' = FALSE /\ UNCHANGED fs
Fail == pc' = "done" /\ exit' = "failure" /\ err' = TRUE /\ UNCHANGED <<fs, run>>
Goes(from, to, stage) == pc = from /\ IF Stage(run.input) = stage THEN Fail ELSE pc' = to /\ UNCHANGED <<fs, run, exit, err>>
Usage == pc = "usage" /\ IF run.size \in BadSizes THEN Fail ELSE pc' = "read" /\ UNCHANGED <<fs, run, exit, err>>
ReadFile == Goes("read", "parse", "read")
Parse == Goes("parse", "derive", "parse")
Derive == Goes("derive", "draw", "derive")
Draw == Goes("draw", "save", "draw")
Save == /\ pc = "save"
        /\ IF Writable(Target(run.output))
           THEN fs' = [fs EXCEPT ![Target(run.output)] = Drawing(run)] /\ pc' = "done" /\ exit' = "success" /\ UNCHANGED <<run, err>>
           ELSE Fail
Steps == Usage \/ ReadFile \/ Parse \/ Derive \/ Draw \/ Save
Leave == pc = "done" /\ pc' = "idle" /\ run' = Idle /\ exit' = "none" /\ err' = FALSE /\ UNCHANGED fs

\* -------------------------------------------------------------------------
\* A whole run as one action, and that the steps make just it.
Succeeds(c) == c.size \notin BadSizes /\ Stage(c.input) = "none" /\ Writable(Target(c.output))
After(f, c) == IF Succeeds(c) THEN [f EXCEPT ![Target(c.output)] = Drawing(c)] ELSE f

SuccessExactlyWhenSaved == [][pc' = "done" /\ pc # "done" =>
   (exit' = "success") = (Writable(Target(run.output)) /\ fs'[Target(run.output)] = Drawing(run) /\ pc = "save")]_vars
RunIsOneAction == [][pc' = "done" /\ pc # "done" => (exit' = "success") = Succeeds(run) /\ fs' = After(fs, run)]_vars
FailureIsReported == exit = "failure" => err
FaultyInputLeavesFiles == [][pc # "idle" /\ Stage(run.input) # "none" => UNCHANGED fs]_vars
EveryRunEnds == (pc = "usage") ~> (pc = "done")
=============================================================================
