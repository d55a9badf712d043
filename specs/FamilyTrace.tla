----------------------------- MODULE FamilyTrace ----------------------------
(* Histories of the real family registry, judged by FamilyReg. A caller may     *)
(* have its initialiser run when the name was unregistered at some moment of     *)
(* the call, but only one family ever takes effect.                              *)
EXTENDS FamilyReg, History
VARIABLE begun     \* calls whose initialiser may have run
vars == <<reg, begun, hvars>>

Numbered == 1..1200   \* for long histories with many names
Init == HInit /\ RegInit /\ begun = {}
Take(k) ==
  LET c == Call(k) IN
  /\ CASE c.o = "reg"  -> (IF reg[c.n] # 0 THEN c.r = 0 /\ UNCHANGED reg ELSE Register(c.n, c.c, c.r))
       [] c.o = "getf" -> Get(c.n, c.r)
       [] c.o = "has"  -> Exists(c.n, c.r = 1) /\ c.r \in {0, 1}
       [] c.o = "of"   -> c.r = reg[c.n] /\ UNCHANGED reg
       [] c.o = "initpanic" -> (IF reg[c.n] # 0 THEN c.r = reg[c.n] /\ ~c.ran ELSE c.r = 0 /\ c.ran) /\ UNCHANGED reg   \* 0: a panic
       [] c.o = "init" -> (IF c.ran /\ k \in begun /\ reg[c.n] # 0 THEN c.r = reg[c.n] /\ UNCHANGED reg
                           ELSE GetOrInit(c.n, c.c, c.r, c.ran))
  /\ Took(k) /\ begun' = begun \ {k}
Begin(k) == Call(k).o = "init" /\ Call(k).ran /\ k \notin begun /\ reg[Call(k).n] = 0 /\ begun' = begun \cup {k} /\ UNCHANGED <<reg, hvars>>
Next == \/ (Invoke \/ Return) /\ UNCHANGED <<reg, begun>>
        \/ Awaited /\ \E k \in open : Take(k) \/ Begin(k)
Spec == Init /\ [][Next]_vars
=============================================================================
