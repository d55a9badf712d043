-------------------------------- MODULE Args --------------------------------
(* The command line of the lsystem tool (src/bin/lsystem/cli.rs): a machine   *)
(* that reads one item of the line after the other, and what the tool does    *)
(* with the meaning it ends with. An item is                                  *)
(*   [t |-> "word", v |-> text]      a word that is no option                 *)
(*   [t |-> "opt", o |-> option, how |-> spelling, v |-> value]               *)
(*                                   an option with its value ("" for none)   *)
(*   [t |-> "flag", o |-> flag, how |-> spelling]                             *)
(*   [t |-> "rest"]                  `--`: only words follow                  *)
(*   [t |-> "wrong", v |-> text]     an option that there is not              *)
(* A value of output is [stem, ext]; one of width or height is [text, n],     *)
(* n being the number or -1 if the text is no such number.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Commands == {"interpret", "describe", "help"}
Sizes == {"width", "height"}
Nothing == [given |-> FALSE]
Just(v) == [given |-> TRUE, v |-> v]

Start == [mode |-> "top", file |-> Nothing, output |-> Nothing, width |-> Nothing, height |-> Nothing,
          verbose |-> FALSE, rest |-> FALSE, end |-> ""]
Ends(s, how) == [s EXCEPT !.end = how]

Word(s, w) ==
  CASE s.mode = "top" -> IF w \in Commands THEN [s EXCEPT !.mode = w] ELSE Ends(s, "wrong")
    [] s.mode = "interpret" /\ ~s.file.given -> [s EXCEPT !.file = Just(w)]
    [] s.mode = "help" -> IF w \in Commands THEN Ends(s, "help") ELSE Ends(s, "wrong")
    [] OTHER -> Ends(s, "wrong")
Option(s, it) ==
  IF s.mode # "interpret" \/ s.rest \/ s[it.o].given THEN Ends(s, "wrong")
  ELSE IF it.o \in Sizes /\ it.v.n = -1 THEN Ends(s, "wrong")
  ELSE [s EXCEPT ![it.o] = Just(it.v), !.verbose = @ \/ (it.how = "-voV")]
Flag(s, it) ==
  CASE it.o = "verbose" -> [s EXCEPT !.verbose = TRUE]
    [] OTHER -> Ends(s, it.o)
Read(s, it) ==
  IF s.end # "" THEN s
  ELSE CASE it.t = "word" -> Word(s, it.v)
         [] it.t = "opt" -> Option(s, it)
         [] it.t = "flag" -> Flag(s, it)
         [] it.t = "rest" -> [s EXCEPT !.rest = TRUE]
         [] it.t \in {"wrong", "lacking"} -> Ends(s, "wrong")

RECURSIVE ReadAll(_, _)
ReadAll(s, line) == IF line = <<>> THEN s ELSE ReadAll(Read(s, Head(line)), Tail(line))

\* -------------------------------------------------------------------------
\* What the tool does
Saved(o) == IF o.given THEN (IF o.v.ext \in {".svg", ".SVG"} THEN o.v.stem \o o.v.ext ELSE o.v.stem \o ".svg") ELSE "out.svg"
Size(o) == IF o.given THEN o.v.n ELSE 500
NoPicture == [file |-> "", plant |-> "", width |-> 0, height |-> 0]

\* the plant files that there are
CONSTANT Plants
\* does[outcome]: exit status, what is printed on which stream, the picture that is saved
Does(s) ==
  CASE s.end \in {"help", "version"} -> [exit |-> "success", shows |-> s.end, picture |-> NoPicture]
    [] s.end = "" /\ s.mode = "help" -> [exit |-> "success", shows |-> "help", picture |-> NoPicture]
    [] s.end = "" /\ s.mode = "describe" -> [exit |-> "success", shows |-> "alphabet", picture |-> NoPicture]
    [] s.end = "" /\ s.mode = "interpret" /\ s.file.given /\ s.file.v \in Plants ->
         [exit |-> "success", shows |-> "any",
          picture |-> [file |-> Saved(s.output), plant |-> s.file.v, width |-> Size(s.width), height |-> Size(s.height)]]
    [] OTHER -> [exit |-> "failure", shows |-> "error", picture |-> NoPicture]

\* what describe shows: the turtle's alphabet, each symbol once and under its kind
Alphabet == [terminals |-> {"[", "]", "+", "-"}, productions |-> {"Forward", "Move", "X"}]

\* -------------------------------------------------------------------------
\* The same, said without reading in order: an interpret line that is accepted
\* means what its items say wherever they stand.
Values(line, o) == {line[i].v : i \in {j \in 1..Len(line) : line[j].t = "opt" /\ line[j].o = o}}
Words(line) == SelectSeq(line, LAMBDA it : it.t = "word")
Said(line, o) == IF Values(line, o) = {} THEN Nothing ELSE Just(CHOOSE v \in Values(line, o) : TRUE)
Declared(line) ==
  [mode |-> "interpret", file |-> Just(Words(line)[2].v),
   output |-> Said(line, "output"), width |-> Said(line, "width"), height |-> Said(line, "height"),
   verbose |-> \E i \in 1..Len(line) : \/ line[i].t = "flag" /\ line[i].o = "verbose"
                                       \/ line[i].t = "opt" /\ line[i].how = "-voV",
   rest |-> \E i \in 1..Len(line) : line[i].t = "rest", end |-> ""]
IsPicture(s) == s.end = "" /\ s.mode = "interpret" /\ s.file.given
=============================================================================
