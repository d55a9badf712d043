----------------------------- MODULE FamilyReg -----------------------------
(* The registry of families (src/system/family.rs): atomic specification.     *)
(* A family is identified by its content (a natural number); 0 is "none".     *)
(* At most one family is ever registered under a name; it is never replaced.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Names, Contents, Blank   \* Blank \subseteq Names: names that are only white space

VARIABLE reg    \* name -> content or 0

RegInit == reg = [n \in Names |-> 0]

\* Builder::register(n): content c.
\* family::register(f): the same for a family value (which cannot have a blank name).
Register(n, c, res) ==
  IF n \in Blank THEN res = "error" /\ UNCHANGED reg
  ELSE IF reg[n] # 0 THEN res = "error" /\ UNCHANGED reg
  ELSE res = c /\ reg' = [reg EXCEPT ![n] = c]
Get(n, res) == res = reg[n] /\ UNCHANGED reg
Exists(n, res) == res = (reg[n] # 0) /\ UNCHANGED reg
\* ran: whether the caller's initialiser was called.
GetOrInit(n, c, res, ran) ==
  IF reg[n] # 0 THEN res = reg[n] /\ ~ran /\ UNCHANGED reg
  ELSE res = c /\ ran /\ reg' = [reg EXCEPT ![n] = c]
\* The same with an initialiser that panics (res = "panic": the caller sees the panic).
InitPanics(n, res, ran) ==
  /\ IF reg[n] # 0 THEN res = reg[n] /\ ~ran ELSE res = "panic" /\ ran
  /\ UNCHANGED reg
\* System::of_family(n): the content whose alphabet the system has.
OfFamily(n, res) == (IF reg[n] = 0 THEN res = "error" ELSE res = reg[n]) /\ UNCHANGED reg

NeverReplaced == [][\A n \in Names : reg[n] # 0 => reg'[n] = reg[n]]_reg
=============================================================================
