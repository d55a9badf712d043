---------------------------- MODULE FamilyRegGen ----------------------------
(* One test per transition of FamilyReg (and depth): the calls that lead to it, *)
(* hidden by the view, with their results.                                      *)
EXTENDS FamilyReg, Json
CONSTANT MaxOps
VARIABLE h
vars == <<reg, h>>
view == <<reg, Len(h)>>
Did(e) == Len(h) < MaxOps /\ h' = Append(h, e)
Init == RegInit /\ h = <<>>
Next ==
  \E n \in Names :
    \/ \E c \in Contents, via \in {"builder", "value"} :
         LET r == IF n \in Blank \/ reg[n] # 0 THEN "error" ELSE "ok"
         IN Register(n, c, IF r = "ok" THEN c ELSE "error") /\ Did([o |-> "register", via |-> via, n |-> n, c |-> c, res |-> r])
    \/ Get(n, reg[n]) /\ Did([o |-> "get", n |-> n, c |-> reg[n], res |-> IF reg[n] = 0 THEN "none" ELSE "found"])
    \/ Exists(n, reg[n] # 0) /\ Did([o |-> "exists", n |-> n, c |-> 0, res |-> IF reg[n] = 0 THEN "no" ELSE "yes"])
    \/ \E c \in Contents :
         LET new == reg[n] = 0 IN
         /\ n \notin Blank
         /\ GetOrInit(n, c, IF new THEN c ELSE reg[n], new)
         /\ Did([o |-> "init", n |-> n, c |-> c, got |-> IF new THEN c ELSE reg[n], res |-> IF new THEN "ran" ELSE "not run"])
    \/ LET new == reg[n] = 0 IN
         /\ IF new THEN InitPanics(n, "panic", TRUE) ELSE InitPanics(n, reg[n], FALSE)
         /\ Did([o |-> "initpanic", n |-> n, c |-> reg[n], got |-> reg[n], res |-> IF new THEN "error" ELSE "not run"])
    \/ OfFamily(n, IF reg[n] = 0 THEN "error" ELSE reg[n])
         /\ Did([o |-> "of", n |-> n, c |-> reg[n], res |-> IF reg[n] = 0 THEN "error" ELSE "ok"])
Spec == Init /\ [][Next]_vars
\* Exactly one registration takes effect per name.
Wins(n) == {k \in 1..Len(h) : h[k].n = n /\ h[k].o \in {"register", "init"} /\ h[k].res \in {"ok", "ran"}}
OneWinner == \A n \in Names : Cardinality(Wins(n)) = (IF reg[n] = 0 THEN 0 ELSE 1)
Show == PrintT("@@" \o ToJson([h |-> h', reg |-> {[n |-> n, c |-> reg'[n]] : n \in Names}]))
=============================================================================
