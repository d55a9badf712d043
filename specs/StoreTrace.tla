----------------------------- MODULE StoreTrace -----------------------------
(* Recorded histories of calls on two systems and one pair of the caller's own *)
(* stores.  Every recorded call is one action of Store; its result and what    *)
(* could be observed after it must be what Store says.  Obs selects which      *)
(* observations a property is about.                                           *)
EXTENDS Store, Json, IOUtils
CONSTANT Obs      \* subset of {"symbols", "productions", "own"}, or {"failures"}

Three == <<"system", "system", "own">>
StartsThree == <<{}, {}, {}>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, k
Hist == Trace[i].h
Ev == Hist[k]
Ran(q) == {q[n] : n \in 1..Len(q)}

TInit == /\ i = 1 /\ k = 1
         /\ alpha = [s \in Ids |-> {}] /\ prods = [s \in Ids |-> <<>>] /\ h = <<>>
\* The call, as an action of Store.
Call ==
  \/ Ev.o = "start" /\ alpha' = [s \in Ids |-> Ran(Ev.alpha[s])] /\ UNCHANGED <<prods, h>>
  \/ Ev.o = "sym" /\ AddSymbol(Ev.s, Ev.n)
  \/ Ev.o = "badsym" /\ FailSymbol(Ev.s, Ev.n)
  \/ Ev.o = "get" /\ GetSymbol(Ev.s, Ev.n)
  \/ Ev.o = "prod" /\ AddProduction(Ev.s, Ev.p)
  \/ Ev.o = "pap" /\ ParseAndAdd(Ev.s, Ev.p)
  \/ Ev.o = "badprod" /\ FailProduction(Ev.s, Ev.n, Ev.via)
  \/ Ev.o \in {"derive", "bulk"} /\ UNCHANGED vars
\* What the specification says about this call (evaluated with the new state).
ResultAgrees ==
  CASE Ev.o \in {"prod", "pap"} -> Ev.res = h'[Len(h')].res
    [] Ev.o = "derive" -> Ev.res \in Outcomes(prods[Ev.s], Ev.str, Len(Ev.str))
    [] Ev.o = "bulk" ->
         LET w == Bulk(Stores[Ev.s], Ev.m, Ev.q, Ev.t) IN
         IF Stores[Ev.s] = "own" THEN Ev.res = w
         ELSE /\ "symbols" \in Obs => <<Ev.res.n, Ev.res.found, Ev.res.other>> = <<w.n, w.found, w.other>>
              /\ "productions" \in Obs => <<Ev.res.prods, Ev.res.merged, Ev.res.derived>> = <<w.prods, w.merged, w.derived>>
    [] Ev.o = "start" -> TRUE
    [] OTHER -> Ev.res = h'[Len(h')].res
\* Which property this call's result belongs to.
Judged(s) == IF Stores[s] = "own" THEN "own" \in Obs
             ELSE IF Ev.o = "bulk" THEN TRUE
             ELSE IF Ev.o \in {"sym", "badsym", "get"} THEN "symbols" \in Obs ELSE "productions" \in Obs
After(s) == Ev.after[s]
SymbolsAgree(s) == /\ After(s).n = Cardinality(alpha'[s])
                   /\ Ran(After(s).found) = alpha'[s]
ProductionsAgree(s) == After(s).m = Len(prods'[s])
StoreAgrees(s) ==
  IF Ev.after = <<>> THEN TRUE      \* (in large histories not every state is looked at)
  ELSE IF Stores[s] = "own"
  THEN "own" \in Obs => SymbolsAgree(s) /\ ProductionsAgree(s) /\ After(s).list = prods'[s]
  ELSE /\ "symbols" \in Obs => SymbolsAgree(s)
       /\ "productions" \in Obs => ProductionsAgree(s)
\* FailuresChangeNothing, on what was observed before and after the call.
FailureHarmless == k > 1 /\ Ev.err => Ev.after = Hist[k - 1].after
Why == IF "failures" \in Obs THEN (IF FailureHarmless THEN "" ELSE " the state after call " \o ToString(k - 1)) ELSE
       (IF Ev.o # "start" /\ Judged(Ev.s) /\ ~ResultAgrees THEN " the result of call " \o ToString(k - 1) ELSE "")
       \o (IF \A s \in Ids : StoreAgrees(s) THEN "" ELSE " the state after call " \o ToString(k - 1))
FewOneEntryPerHead == (\A s \in Systems : Len(prods[s]) <= 20) => OneEntryPerHead
Reset == alpha' = [s \in Ids |-> {}] /\ prods' = [s \in Ids |-> <<>>] /\ h' = <<>> /\ k' = 1 /\ i' = i + 1
Accepts == k <= Len(Hist) /\ Call /\ Why = "" /\ k' = k + 1 /\ UNCHANGED i
Rejects == k <= Len(Hist) /\ ~ENABLED Accepts /\ Reset /\ PrintT("@@REJ " \o ToString(i) \o " at call " \o ToString(k - 1) \o " " \o ToString(Ev.o))
Ends == k > Len(Hist) /\ Reset /\ PrintT("@@ACC " \o ToString(i))
TNext == i <= Len(Trace) /\ (Accepts \/ Rejects \/ Ends)
TSpec == TInit /\ [][TNext]_<<vars, i, k>>
=============================================================================
