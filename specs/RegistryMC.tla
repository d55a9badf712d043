----------------------------- MODULE RegistryMC -----------------------------
(* The registry as it may be implemented, at the grain of its locks: the code  *)
(* register is held for writing while a new code is numbered and its name       *)
(* recorded under the name register's lock. Refines Registry.                   *)
EXTENDS Naturals, FiniteSets, Sequences, TLC

CONSTANTS Threads, Names, MaxOps
VARIABLES codeReg, nameReg, next,       \* the two maps and the counter
          codeLock, nameWriter, nameReaders,
          pc, arg, reg, ops
vars == <<codeReg, nameReg, next, codeLock, nameWriter, nameReaders, pc, arg, reg, ops>>
None == 0
Init ==
  /\ codeReg = [n \in Names |-> 0] /\ nameReg = {} /\ next = 1
  /\ codeLock = None /\ nameWriter = None /\ nameReaders = {}
  /\ pc = [t \in Threads |-> "idle"] /\ arg = [t \in Threads |-> 0] /\ reg = [t \in Threads |-> 0]
  /\ ops = [t \in Threads |-> 0]
Go(t, l) == pc' = [pc EXCEPT ![t] = l]

StartGet(t) == pc[t] = "idle" /\ ops[t] < MaxOps /\ ops' = [ops EXCEPT ![t] = @ + 1] /\ \E n \in Names : arg' = [arg EXCEPT ![t] = n]
               /\ Go(t, "lock code") /\ UNCHANGED <<codeReg, nameReg, next, codeLock, nameWriter, nameReaders, reg>>
LockCode(t) == pc[t] = "lock code" /\ codeLock = None /\ codeLock' = t /\ Go(t, "look up")
               /\ UNCHANGED <<codeReg, nameReg, next, nameWriter, nameReaders, arg, reg, ops>>
LookUp(t) == /\ pc[t] = "look up"
             /\ IF codeReg[arg[t]] # 0
                THEN reg' = [reg EXCEPT ![t] = codeReg[arg[t]]] /\ codeLock' = None /\ Go(t, "got") /\ UNCHANGED next
                ELSE reg' = [reg EXCEPT ![t] = next] /\ next' = next + 1 /\ Go(t, "lock name") /\ UNCHANGED codeLock
             /\ UNCHANGED <<codeReg, nameReg, nameWriter, nameReaders, arg, ops>>
LockName(t) == pc[t] = "lock name" /\ nameWriter = None /\ nameReaders = {} /\ nameWriter' = t /\ Go(t, "record name")
               /\ UNCHANGED <<codeReg, nameReg, next, codeLock, nameReaders, arg, reg, ops>>
RecordName(t) == pc[t] = "record name" /\ nameReg' = nameReg \cup {<<reg[t], arg[t]>>} /\ nameWriter' = None /\ Go(t, "record code")
                 /\ UNCHANGED <<codeReg, next, codeLock, nameReaders, arg, reg, ops>>
RecordCode(t) == pc[t] = "record code" /\ codeReg' = [codeReg EXCEPT ![arg[t]] = reg[t]] /\ codeLock' = None /\ Go(t, "got")
                 /\ UNCHANGED <<nameReg, next, nameWriter, nameReaders, arg, reg, ops>>
\* The caller has the code; it, or anyone it tells, may read it back, and so may one who guesses.
Got(t) == pc[t] = "got" /\ Go(t, "idle") /\ UNCHANGED <<codeReg, nameReg, next, codeLock, nameWriter, nameReaders, arg, reg, ops>>
StartName(t) == pc[t] = "idle" /\ ops[t] < MaxOps /\ ops' = [ops EXCEPT ![t] = @ + 1] /\ \E c \in 1..(Cardinality(Names) + 1) : arg' = [arg EXCEPT ![t] = c]
                /\ Go(t, "lock read") /\ UNCHANGED <<codeReg, nameReg, next, codeLock, nameWriter, nameReaders, reg>>
\* New readers stay behind a waiting writer.
Waiting == \E u \in Threads : pc[u] = "lock name"
LockRead(t) == pc[t] = "lock read" /\ nameWriter = None /\ (nameReaders = {} \/ ~Waiting) /\ nameReaders' = nameReaders \cup {t} /\ Go(t, "read")
               /\ UNCHANGED <<codeReg, nameReg, next, codeLock, nameWriter, arg, reg, ops>>
Read(t) == pc[t] = "read" /\ nameReaders' = nameReaders \ {t} /\ Go(t, "idle") /\ UNCHANGED <<codeReg, nameReg, next, codeLock, nameWriter, arg, reg, ops>>

Quiet == \A t \in Threads : pc[t] = "idle"
Step(t) == LockCode(t) \/ LookUp(t) \/ LockName(t) \/ RecordName(t) \/ RecordCode(t) \/ Got(t) \/ LockRead(t) \/ Read(t)
Next == (\E t \in Threads : StartGet(t) \/ StartName(t) \/ Step(t)) \/ (Quiet /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : SF_vars(Step(t))

R == INSTANCE Registry WITH book <- nameReg, Blank <- {}
Refines == [][\/ UNCHANGED nameReg \/ \E n \in Names, c \in 1..(Cardinality(Names)) : R!Get(n, c)]_nameReg
OneToOne == R!OneToOne
\* From the moment any thread has the code, it reads back as the name.
Known == \A t \in Threads : pc[t] = "got" => <<reg[t], arg[t]>> \in nameReg
Same == \A t \in Threads : pc[t] = "got" => codeReg[arg[t]] = reg[t]
\* Every call returns.
Returns == \A t \in Threads : (pc[t] # "idle") ~> (pc[t] = "idle")
=============================================================================
