------------------------------ MODULE SystemMC ------------------------------
(* A system at the grain of its locks: adding a production holds the lock on    *)
(* the productions while it takes the lock on the symbols once per symbol; a    *)
(* derivation holds the lock on the productions for reading throughout.         *)
(* Refines SharedSystem; the locks follow std: new readers stay behind a        *)
(* waiting writer.                                                               *)
EXTENDS SharedSystem, TLC

CONSTANTS Threads, MaxOps
Heads == {"A", "B"}
Bodies == {"B", "C"}
VARIABLES prod, sym,      \* the locks: [w |-> holder or 0, r |-> readers]
          pc, arg, left, seen, ops
vars == <<alpha, rules, prod, sym, pc, arg, left, seen, ops>>
Free == [w |-> 0, r |-> {}]
Init == SysInit /\ prod = Free /\ sym = Free /\ pc = [t \in Threads |-> "idle"] /\ arg = [t \in Threads |-> <<>>]
        /\ left = [t \in Threads |-> {}] /\ seen = [t \in Threads |-> <<>>] /\ ops = [t \in Threads |-> 0]
Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Start(t) ==
  /\ pc[t] = "idle" /\ ops[t] < MaxOps /\ ops' = [ops EXCEPT ![t] = @ + 1]
  /\ \/ \E h \in Heads, b \in Bodies : arg' = [arg EXCEPT ![t] = <<h, b>>] /\ left' = [left EXCEPT ![t] = {h, b}] /\ Go(t, "write prod")
     \/ arg' = [arg EXCEPT ![t] = <<"A">>] /\ Go(t, "read prod") /\ UNCHANGED left            \* derive, production_len
     \/ \E n \in Heads : arg' = [arg EXCEPT ![t] = <<n>>] /\ Go(t, "write sym") /\ UNCHANGED left
     \/ arg' = [arg EXCEPT ![t] = <<"B">>] /\ Go(t, "read sym") /\ UNCHANGED left              \* get_symbol, symbol_len
  /\ UNCHANGED <<alpha, rules, prod, sym, seen>>
WaitsFor(l) == \E u \in Threads : pc[u] = l
WriteProd(t) == pc[t] = "write prod" /\ prod = Free /\ prod' = [prod EXCEPT !.w = t] /\ Go(t, "symbols") /\ UNCHANGED <<alpha, rules, sym, arg, left, seen, ops>>
TakeSym(t) == pc[t] = "symbols" /\ left[t] # {} /\ sym = Free /\ sym' = [sym EXCEPT !.w = t] /\ Go(t, "put symbol") /\ UNCHANGED <<alpha, rules, prod, arg, left, seen, ops>>
PutSym(t) == pc[t] = "put symbol" /\ \E n \in left[t] : (alpha' = alpha \cup {n} /\ left' = [left EXCEPT ![t] = @ \ {n}])
             /\ sym' = Free /\ Go(t, "symbols") /\ UNCHANGED <<rules, prod, arg, seen, ops>>
PutRule(t) == pc[t] = "symbols" /\ left[t] = {} /\ rules' = Merged(arg[t]) /\ prod' = Free /\ Go(t, "idle") /\ UNCHANGED <<alpha, sym, arg, left, seen, ops>>
ReadProd(t) == pc[t] = "read prod" /\ prod.w = 0 /\ ~WaitsFor("write prod") /\ prod' = [prod EXCEPT !.r = @ \cup {t}] /\ Go(t, "derive 1")
               /\ UNCHANGED <<alpha, rules, sym, arg, left, seen, ops>>
Derive1(t) == pc[t] = "derive 1" /\ seen' = [seen EXCEPT ![t] = rules] /\ Go(t, "derive 2") /\ UNCHANGED <<alpha, rules, prod, sym, arg, left, ops>>
Derive2(t) == pc[t] = "derive 2" /\ prod' = [prod EXCEPT !.r = @ \ {t}] /\ Go(t, "idle") /\ UNCHANGED <<alpha, rules, sym, arg, left, seen, ops>>
WriteSym(t) == pc[t] = "write sym" /\ sym = Free /\ sym' = [sym EXCEPT !.w = t] /\ Go(t, "one symbol") /\ UNCHANGED <<alpha, rules, prod, arg, left, seen, ops>>
OneSym(t) == pc[t] = "one symbol" /\ alpha' = alpha \cup {arg[t][1]} /\ sym' = Free /\ Go(t, "idle") /\ UNCHANGED <<rules, prod, arg, left, seen, ops>>
ReadSym(t) == pc[t] = "read sym" /\ sym.w = 0 /\ ~WaitsFor("write sym") /\ sym' = [sym EXCEPT !.r = @ \cup {t}] /\ Go(t, "look") /\ UNCHANGED <<alpha, rules, prod, arg, left, seen, ops>>
Look(t) == pc[t] = "look" /\ sym' = [sym EXCEPT !.r = @ \ {t}] /\ Go(t, "idle") /\ UNCHANGED <<alpha, rules, prod, arg, left, seen, ops>>
Step(t) == WriteProd(t) \/ TakeSym(t) \/ PutSym(t) \/ PutRule(t) \/ ReadProd(t) \/ Derive1(t) \/ Derive2(t) \/ WriteSym(t) \/ OneSym(t) \/ ReadSym(t) \/ Look(t)
Quiet == \A t \in Threads : pc[t] = "idle"
Next == (\E t \in Threads : Start(t) \/ Step(t)) \/ (Quiet /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : SF_vars(Step(t))

Refines == [][(\E n \in Heads \cup Bodies : AddSymbol(n)) \/ (\E h \in Heads, b \in Bodies, k \in 1..Len(rules') : AddRule(<<h, b>>, rules'[k].b))]_<<alpha, rules>>
\* A derivation uses one set of productions throughout.
OneSet == \A t \in Threads : pc[t] = "derive 2" => seen[t] = rules
Exclusive == /\ prod.w # 0 => prod.r = {}
             /\ sym.w # 0 => sym.r = {}
Returns == \A t \in Threads : (pc[t] # "idle") ~> (pc[t] = "idle")
=============================================================================
