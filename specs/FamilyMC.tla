------------------------------ MODULE FamilyMC ------------------------------
(* The family registry at the grain of its lock: registration checks and        *)
(* inserts under the write lock; get-or-initialise looks under the read lock,    *)
(* then again under the write lock, and runs the initialiser while holding it.   *)
EXTENDS FamilyReg
CONSTANTS Threads, MaxOps
VARIABLES lock, pc, name, mine, got, ran, ops
vars == <<reg, lock, pc, name, mine, got, ran, ops>>
Free == [w |-> 0, r |-> {}]
Init == RegInit /\ lock = Free /\ pc = [t \in Threads |-> "idle"] /\ name = [t \in Threads |-> CHOOSE n \in Names : TRUE] /\ mine = [t \in Threads |-> 0]
        /\ got = [t \in Threads |-> 0] /\ ran = [t \in Threads |-> FALSE] /\ ops = [t \in Threads |-> 0]
Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Content(t) == 10 * t + ops[t] + 1
Start(t) == /\ pc[t] = "idle" /\ ops[t] < MaxOps /\ ops' = [ops EXCEPT ![t] = @ + 1]
            /\ \E n \in Names : name' = [name EXCEPT ![t] = n]
            /\ mine' = [mine EXCEPT ![t] = Content(t)] /\ ran' = [ran EXCEPT ![t] = FALSE]
            /\ \/ Go(t, "write register") \/ Go(t, "read get") \/ Go(t, "read init")
            /\ UNCHANGED <<reg, lock, got>>
Waits == \E u \in Threads : pc[u] \in {"write register", "write init"}
ReadLock(t) == /\ pc[t] \in {"read get", "read init"} /\ lock.w = 0 /\ ~Waits /\ lock' = [lock EXCEPT !.r = @ \cup {t}]
               /\ Go(t, IF pc[t] = "read get" THEN "look get" ELSE "look init") /\ UNCHANGED <<reg, name, mine, got, ran, ops>>
Look(t) == /\ pc[t] \in {"look get", "look init"} /\ lock' = [lock EXCEPT !.r = @ \ {t}] /\ got' = [got EXCEPT ![t] = reg[name[t]]]
           /\ Go(t, IF pc[t] = "look init" /\ reg[name[t]] = 0 THEN "write init" ELSE "done") /\ UNCHANGED <<reg, name, mine, ran, ops>>
WriteLock(t) == /\ pc[t] \in {"write register", "write init"} /\ lock = Free /\ lock' = [lock EXCEPT !.w = t]
                /\ Go(t, IF pc[t] = "write register" THEN "register" ELSE "again") /\ UNCHANGED <<reg, name, mine, got, ran, ops>>
DoRegister(t) == /\ pc[t] = "register" /\ lock' = Free /\ Go(t, "done")
                 /\ IF reg[name[t]] # 0 THEN got' = [got EXCEPT ![t] = 0] /\ UNCHANGED reg
                    ELSE got' = [got EXCEPT ![t] = mine[t]] /\ reg' = [reg EXCEPT ![name[t]] = mine[t]]
                 /\ UNCHANGED <<name, mine, ran, ops>>
Again(t) == /\ pc[t] = "again"
            /\ IF reg[name[t]] # 0 THEN got' = [got EXCEPT ![t] = reg[name[t]]] /\ lock' = Free /\ Go(t, "done") /\ UNCHANGED ran
               ELSE ran' = [ran EXCEPT ![t] = TRUE] /\ Go(t, "initialise") /\ UNCHANGED <<got, lock>>
            /\ UNCHANGED <<reg, name, mine, ops>>
Insert(t) == /\ pc[t] = "initialise" /\ reg' = [reg EXCEPT ![name[t]] = mine[t]] /\ got' = [got EXCEPT ![t] = mine[t]] /\ lock' = Free /\ Go(t, "done")
             /\ UNCHANGED <<name, mine, ran, ops>>
Done(t) == pc[t] = "done" /\ Go(t, "idle") /\ UNCHANGED <<reg, lock, name, mine, got, ran, ops>>
Step(t) == ReadLock(t) \/ Look(t) \/ WriteLock(t) \/ DoRegister(t) \/ Again(t) \/ Insert(t) \/ Done(t)
Quiet == \A t \in Threads : pc[t] = "idle"
Next == (\E t \in Threads : Start(t) \/ Step(t)) \/ (Quiet /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : SF_vars(Step(t))

Refines == [][\E n \in Names, t \in Threads : reg[n] = 0 /\ Register(n, mine[t], mine[t])]_reg
\* An initialiser that ran is the one that takes effect.
RanCounts == \A t \in Threads : pc[t] = "done" /\ ran[t] => got[t] = mine[t] /\ reg[name[t]] = mine[t]
SameForAll == \A t \in Threads : pc[t] = "done" /\ got[t] # 0 => got[t] = reg[name[t]]
Returns == \A t \in Threads : (pc[t] # "idle") ~> (pc[t] = "idle")
=============================================================================
