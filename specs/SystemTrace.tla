----------------------------- MODULE SystemTrace ----------------------------
(* Histories of a real system shared by threads, judged by SharedSystem.       *)
EXTENDS SharedSystem, History
vars == <<alpha, rules, hvars>>

\* The rules and strings of Clients.tla.
Rule(t) == CASE t = "A -> B" -> <<"A", "B">> [] t = "A -> C" -> <<"A", "C">> [] t = "B -> C" -> <<"B", "C">>
             [] t = "A -> D" -> <<"A", "D">> [] t = "C -> A" -> <<"C", "A">>
Text(t) == CASE t = "A A" -> <<"A", "A">> [] t = "B" -> <<"B">> [] t = "A A A B" -> <<"A", "A", "A", "B">>
RECURSIVE Join(_)
Join(w) == IF w = <<>> THEN "" ELSE IF Len(w) = 1 THEN w[1] ELSE w[1] \o " " \o Join(Tail(w))

Init == HInit /\ SysInit
Take(k) ==
  LET c == Call(k) IN
  /\ CASE c.o = "addp" -> AddRule(Rule(c.p), c.r)
       [] c.o = "adds" -> AddSymbol(c.n) /\ c.r = c.n
       [] c.o = "gets" -> GetSymbol(c.n, c.r) /\ UNCHANGED <<alpha, rules>>
       [] c.o = "slen" -> c.r = Cardinality(alpha) /\ UNCHANGED <<alpha, rules>>
       [] c.o = "plen" -> c.r = Len(rules) /\ UNCHANGED <<alpha, rules>>
       [] c.o = "der"  -> c.r \in {Join(v) : v \in Derived(Text(c.a), c.i)} /\ UNCHANGED <<alpha, rules>>
  /\ Took(k)
\* One of the symbols of a production that is being added.
Part(k) == Call(k).o = "addp" /\ \E n \in Symbols(Rule(Call(k).p)) \ alpha : AddSymbol(n) /\ UNCHANGED hvars
Next == \/ (Invoke \/ Return) /\ UNCHANGED <<alpha, rules>>
        \/ Awaited /\ \E k \in open : Take(k) \/ Part(k)
Spec == Init /\ [][Next]_vars
=============================================================================
