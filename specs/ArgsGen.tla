------------------------------- MODULE ArgsGen ------------------------------
(* Every command line of up to MaxItems items.                                *)
EXTENDS Args, Json
CONSTANTS MaxItems, Spellings
VARIABLES line, s
Has(P(_)) == \E i \in 1..Len(line) : P(line[i])
Outs == {[stem |-> "oak", ext |-> ".svg"], [stem |-> "elm", ext |-> ""], [stem |-> "fir", ext |-> ".png"]}
Nums == {[text |-> "300", n |-> 300], [text |-> "007", n |-> 7], [text |-> "0x10", n |-> -1]}
FewOuts == {[stem |-> "elm", ext |-> ""]}
FewNums == {[text |-> "300", n |-> 300]}
Many == Spellings = "all"
Opt(o, how, v) == [t |-> "opt", o |-> o, how |-> how, v |-> v]
Options ==
  {Opt("output", h, v) : h \in IF Many THEN {"-o V", "-oV", "-o=V", "--output V", "--output=V", "-voV"} ELSE {"-o V", "--output=V"},
                         v \in IF Many THEN Outs ELSE FewOuts}
  \cup {Opt(o, h, v) : o \in Sizes, h \in {"--O V", "--O=V"}, v \in IF Many THEN Nums ELSE FewNums}
Flags == {[t |-> "flag", o |-> "verbose", how |-> h] : h \in {"-v", "--verbose"}}
         \cup {[t |-> "flag", o |-> "help", how |-> h] : h \in {"-h", "--help"}}
         \cup {[t |-> "flag", o |-> "version", how |-> h] : h \in {"-V", "--version"}}
Others == {[t |-> "word", v |-> w] : w \in {"interpret", "describe", "help", "a.plant", "b.plant", "c.plant"}}
          \cup {[t |-> "rest"]}
          \cup {[t |-> "wrong", v |-> w] : w \in {"--bogus", "-x", "-w", "--Width=300"}}
          \cup {[t |-> "lacking", v |-> w] : w \in {"-o", "--output", "--width", "--height"}}
Items == Options \cup Flags \cup Others

\* nothing is said twice, and what is left out is left to the argument parser:
\* `--` before the command, a flag after `--` or after `help`, anything after an end
Lacks == line # <<>> /\ line[Len(line)].t = "lacking"
Follows(it) == it.t \in {"opt", "wrong"} \/ (it.t = "flag" /\ it.o = "verbose")   \* no value of what lacks one
Sensible(it) ==
  /\ s.end = "" \/ (Lacks /\ Follows(it))
  /\ it.t = "flag" => /\ ~s.rest /\ s.mode # "help"
                      /\ it.o = "verbose" => ~s.verbose
  /\ it.t = "opt" => ~s.rest /\ s.mode # "help" /\ (it.how = "-voV" => ~s.verbose) /\ (s.mode = "interpret" => ~s[it.o].given)
  /\ it.t \in {"wrong", "lacking"} => ~s.rest /\ s.mode # "help"
  /\ it.t = "lacking" => s.mode = "interpret"
  /\ it.t = "rest" => s.mode = "interpret" /\ ~s.rest
Init == line = <<>> /\ s = Start
Next == /\ Len(line) < MaxItems
        /\ \E it \in Items : Sensible(it) /\ line' = Append(line, it) /\ s' = Read(s, it)
Spec == Init /\ [][Next]_<<line, s>>

ReadsAsWhole == s = ReadAll(Start, line)
OrderIsWithoutMeaning == IsPicture(s) => s = Declared(line)
WrongLinesDoNothing == Does(s).exit = "failure" <=> Does(s).shows = "error"
OnlyInterpretSaves == Does(s).picture # NoPicture => s.mode = "interpret" /\ Does(s).exit = "success"
\* -v only adds to what is printed
VerboseIsOnlyTalk == LET quiet == SelectSeq(line, LAMBDA it : ~(it.t = "flag" /\ it.o = "verbose"))
                     IN Does(ReadAll(Start, quiet)) = Does(s)
Emit == PrintT("@@" \o ToJson([line |-> line, does |-> Does(s)]))
=============================================================================
