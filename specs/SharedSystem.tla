---------------------------- MODULE SharedSystem ----------------------------
(* One system shared by threads (src/system.rs), atomic specification.         *)
(* Adding a production adds its symbols, one after the other, and then the      *)
(* production; every other call is one step.                                    *)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES alpha,    \* the symbols of the system
          rules     \* its productions, in the order they were added: [h |-> head, b |-> bodies]

SysInit == alpha = {} /\ rules = <<>>

Range(q) == {q[k] : k \in 1..Len(q)}
\* A rule is a head and a body, both symbols.
Symbols(r) == {r[1], r[2]}
At(h) == {k \in 1..Len(rules) : rules[k].h = h}

AddSymbol(n) == alpha' = alpha \cup {n} /\ UNCHANGED rules
\* The production itself: merged with the one that has its head, or last. bs: its bodies then.
Merged(r) == IF At(r[1]) = {} THEN Append(rules, [h |-> r[1], b |-> <<r[2]>>])
             ELSE LET k == CHOOSE k \in At(r[1]) : TRUE IN [rules EXCEPT ![k].b = Append(@, r[2])]
AddRule(r, bs) ==
  /\ Symbols(r) \subseteq alpha
  /\ rules' = Merged(r)
  /\ \E k \in 1..Len(rules') : rules'[k].h = r[1] /\ rules'[k].b = bs
  /\ UNCHANGED alpha
GetSymbol(n, res) == res = (IF n \in alpha THEN n ELSE "none")
\* What a string may become in one iteration (each occurrence chooses among its bodies).
Choices(x) == IF At(x) = {} THEN {x} ELSE Range(rules[CHOOSE k \in At(x) : TRUE].b)
RECURSIVE Once(_)
Once(w) == IF w = <<>> THEN {<<>>} ELSE {<<x>> \o v : x \in Choices(Head(w)), v \in Once(Tail(w))}
RECURSIVE Derived(_, _)
Derived(w, n) == IF n = 0 THEN {w} ELSE UNION {Derived(v, n - 1) : v \in Once(w)}

\* A rule that can be seen has all its symbols.
Closed == \A k \in 1..Len(rules) : rules[k].h \in alpha /\ Range(rules[k].b) \subseteq alpha
OneRulePerHead == \A j, k \in 1..Len(rules) : rules[j].h = rules[k].h => j = k
Grows == [][alpha \subseteq alpha' /\ Len(rules) <= Len(rules')
            /\ \A k \in 1..Len(rules) : rules'[k].h = rules[k].h /\ SubSeq(rules'[k].b, 1, Len(rules[k].b)) = rules[k].b]_<<alpha, rules>>
=============================================================================
