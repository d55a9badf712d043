--------------------------- MODULE RegistryTrace ----------------------------
(* Histories of the real registry. Judge: "codes" (C01: only requests are      *)
(* judged), "names" (C02: reading back), "all".                                 *)
EXTENDS Registry, History
CONSTANT Judge
vars == <<book, hvars>>
Init == HInit /\ book = {<<p[1], p[2]>> : p \in {Hist[i].pre[k] : k \in 1..Len(Hist[i].pre)}}
Take(k) ==
  LET c == Call(k) IN
  /\ CASE c.o = "get"  -> (CASE Judge = "names" -> GetAny(c.n, c.r) [] OTHER -> Get(c.n, c.r))
       [] c.o = "many" -> /\ Judge # "names" => ManyCodes(c.m, c.distinct, c.same)
                          /\ Judge # "codes" => ManyNames(c.m, c.back)
                          /\ UNCHANGED book
       [] OTHER        -> (IF Judge = "codes" THEN UNCHANGED book ELSE Name(c.c, c.r))
  /\ Took(k)
Next == \/ (Invoke \/ Return) /\ UNCHANGED book
        \/ Awaited /\ \E k \in open : Take(k)
Spec == Init /\ [][Next]_vars
=============================================================================
