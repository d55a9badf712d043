------------------------------ MODULE Clients ------------------------------
(* Client programs: what threads may call at the same time. Each is carried    *)
(* out on the real code under many schedules. A program is a list of threads    *)
(* (in a fixed order, as they are interchangeable), each a list of calls.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Domain, MaxThreads, MaxPer, MaxTotal

N(o, n) == [o |-> o, n |-> n]
Sy(o, x) == [s |-> 0] @@ [o |-> o] @@ x
P(t) == Sy("addp", [p |-> t])
G(n) == Sy("gets", [n |-> n])
D(a, k) == Sy("der", [a |-> a, i |-> k])
Alphabet ==
  CASE Domain = "codes"    -> <<N("get", "x"), N("get", "y"), N("get", "z")>>
    [] Domain = "names"    -> <<N("get", "x"), N("get", "y"), N("name", "x"), N("guess", "1"), N("guess", "2")>>
    [] Domain = "system"   -> <<P("A -> B"), P("A -> C"), P("B -> C"), Sy("adds", [n |-> "B"]), G("B"), G("C"),
                                Sy("slen", <<>>), Sy("plen", <<>>), D("A A", 1), D("A A", 2)>>
    [] Domain = "merge"    -> <<P("B -> C"), P("A -> C"), Sy("plen", <<>>), D("A A A B", 1), D("A A A B", 2)>>
    [] Domain = "family"   -> <<N("reg", "x"), N("init", "x"), N("getf", "x"), N("has", "x"), N("of", "x"), N("reg", "y"), N("init", "y")>>
    [] Domain = "mixed"    -> <<N("get", "x"), N("name", "x"), P("A -> B"), P("A -> C"), Sy("adds", [n |-> "x"]), G("B"), Sy("slen", <<>>), Sy("plen", <<>>),
                                D("A B", 2), Sy("show", <<>>), N("reg", "x"), [y |-> 1] @@ N("init", "x"), N("getf", "x"), N("of", "x"), [o |-> "abop"],
                                [P("B -> A x") EXCEPT !.s = 1], [D("B", 2) EXCEPT !.s = 1]>>
Before ==
  CASE Domain = "system" -> {<<>>, <<P("A -> B")>>}
    [] Domain = "merge"  -> {<<P("A -> B")>>}
    [] Domain = "family" -> {<<>>}
    [] OTHER -> {<<>>}
After ==
  CASE Domain = "codes"  -> <<N("get", "x"), N("get", "y"), N("get", "z")>>
    [] Domain = "names"  -> <<N("get", "x"), N("name", "x"), N("get", "y"), N("name", "y")>>
    [] Domain = "system" -> <<Sy("plen", <<>>), Sy("slen", <<>>), G("A"), G("B"), G("C"), D("A A", 1), D("B", 1), P("A -> D")>>
    [] Domain = "family" -> <<N("getf", "x"), N("getf", "y"), N("of", "x")>>
    [] OTHER -> <<>>
Systems == CASE Domain \in {"system", "merge"} -> 1 [] Domain = "mixed" -> 2 [] OTHER -> 0

VARIABLES prog, pre
K == Len(Alphabet)
Total == LET RECURSIVE Sum(_) Sum(k) == IF k = 0 THEN 0 ELSE Len(prog[k]) + Sum(k - 1) IN Sum(Len(prog))
Init == prog = <<>> /\ pre \in Before
Last == prog[Len(prog)]
More == Len(prog) > 0 /\ Len(Last) < MaxPer /\ Total < MaxTotal /\ \E k \in 1..K : prog' = [prog EXCEPT ![Len(prog)] = Append(@, k)]
RECURSIVE Before2(_, _)
Before2(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
                 ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE Before2(Tail(a), Tail(b))
Ordered(p) == \A k \in 2..Len(p) : Before2(p[k - 1], p[k])
Another == Len(prog) < MaxThreads /\ Total < MaxTotal /\ Ordered(prog) /\ \E k \in 1..K : prog' = Append(prog, <<k>>)
Next == (More \/ Another) /\ UNCHANGED pre
Spec == Init /\ [][Next]_<<prog, pre>>

\* Families are told apart by a number: that of the call that made them.
CallAt(p, t, k) == LET a == Alphabet[p[t][k]] IN IF a.o \in {"reg", "init"} THEN [c |-> 10 * t + k] @@ a ELSE a
Changes(p) == \E t \in 1..Len(p) : \E k \in 1..Len(p[t]) : Alphabet[p[t][k]].o \notin {"name", "guess", "gets", "slen", "plen", "der", "show", "getf", "has", "of"}
Show == Len(prog') < 2 \/ ~Ordered(prog') \/ ~Changes(prog')
        \/ PrintT("@@" \o ToJson([threads |-> [t \in 1..Len(prog') |-> [k \in 1..Len(prog'[t]) |-> CallAt(prog', t, k)]],
                                  pre |-> pre, after |-> After, sys |-> Systems]))
=============================================================================
