------------------------------- MODULE Store -------------------------------
(* Systems (src/system.rs) and the caller's own stores (src/symbols.rs,        *)
(* src/productions.rs, parser::parse_and_add_production): what they hold after *)
(* any history of calls, and what each call returns.                           *)
(*                                                                             *)
(* A production is [l, t, r, bs]: a head as in LSystem and a sequence of       *)
(* bodies [c, b] with their chances in percent (-1: not set).                  *)
(* Store s of kind "system" merges by head; kind "own" keeps a list and a set. *)
EXTENDS LSystem, Integers, TLC

CONSTANTS Stores,      \* store -> "system" or "own"
          Starts,      \* store -> the alphabets it may be created with (its family, or {})
          Names, Productions, Malformed, MaxOps,
          Probes       \* strings whose derivation is observed

VARIABLES alpha,   \* store -> set of names
          prods,   \* store -> sequence of stored productions
          h        \* the calls so far, with their results (hidden by the view)
vars == <<alpha, prods, h>>
view == <<alpha, prods, Len(h)>>

Ids == DOMAIN Stores
SymsOf(p) == {Ctx(p.l)[i] : i \in 1..Len(Ctx(p.l))} \cup {p.t}
             \cup {Ctx(p.r)[i] : i \in 1..Len(Ctx(p.r))}
             \cup UNION {{p.bs[k].b[i] : i \in 1..Len(p.bs[k].b)} : k \in 1..Len(p.bs)}
Found(ps, p) == {i \in 1..Len(ps) : HeadOf(ps[i]) = HeadOf(p)}
Merge(ps, p) == LET f == Found(ps, p) IN
                IF f = {} THEN Append(ps, p)
                ELSE [ps EXCEPT ![CHOOSE i \in f : TRUE].bs = @ \o p.bs]
StoredAs(ps, p) == ps[CHOOSE i \in Found(ps, p) : \A j \in Found(ps, p) : i <= j]

\* The strings that one derivation step can give (bodies with no chance left are C10's matter).
RECURSIVE Outcomes(_, _, _)
Outcomes(ps, str, n) ==
  IF n = 0 THEN {<<>>}
  ELSE LET c == Choice(ps, str, n)
           here == IF c = 0 THEN {<<str[n]>>} ELSE {ps[c].bs[k].b : k \in 1..Len(ps[c].bs)}
       IN {a \o b : a \in Outcomes(ps, str, n - 1), b \in here}
Derivable(s) == [k \in 1..Len(Probes) |-> [from |-> Probes[k], to |-> Outcomes(prods[s], Probes[k], Len(Probes[k]))]]

Init == /\ alpha \in [Ids -> SUBSET Names]
        /\ \A s \in Ids : alpha[s] \in Starts[s]
        /\ prods = [s \in Ids |-> <<>>]
        /\ h = <<[o |-> "start", alpha |-> alpha]>>
Did(e) == Len(h) <= MaxOps /\ h' = Append(h, e)

AddSymbol(s, n) ==
  /\ alpha' = [alpha EXCEPT ![s] = @ \cup {n}]
  /\ UNCHANGED prods
  /\ Did([o |-> "sym", s |-> s, n |-> n, res |-> "ok"])
FailSymbol(s, why) ==      \* a blank name, or a code that belongs to no name
  /\ UNCHANGED <<alpha, prods>>
  /\ Did([o |-> "badsym", s |-> s, n |-> why, res |-> "error"])
GetSymbol(s, n) ==
  /\ UNCHANGED <<alpha, prods>>
  /\ Did([o |-> "get", s |-> s, n |-> n, res |-> IF n \in alpha[s] THEN "found" ELSE "none"])
AddProduction(s, p) ==
  /\ IF Stores[s] = "system"
     THEN /\ alpha' = [alpha EXCEPT ![s] = @ \cup SymsOf(p)]
          /\ prods' = [prods EXCEPT ![s] = Merge(@, p)]
          /\ Did([o |-> "prod", s |-> s, p |-> p, res |-> StoredAs(prods'[s], p)])
     ELSE /\ UNCHANGED alpha
          /\ prods' = [prods EXCEPT ![s] = Append(@, p)]
          /\ Did([o |-> "prod", s |-> s, p |-> p, res |-> p])
ParseAndAdd(s, p) ==
  /\ Len(p.bs) = 1     \* (a text has one body)
  /\ alpha' = [alpha EXCEPT ![s] = @ \cup SymsOf(p)]
  /\ prods' = [prods EXCEPT ![s] = IF Stores[s] = "system" THEN Merge(@, p) ELSE Append(@, p)]
  /\ Did([o |-> "pap", s |-> s, p |-> p, res |-> IF Stores[s] = "system" THEN StoredAs(prods'[s], p) ELSE p])
FailProduction(s, m, via) ==
  /\ UNCHANGED <<alpha, prods>>
  /\ Did([o |-> "badprod", s |-> s, n |-> m, via |-> via, res |-> "error"])

\* What very many additions come to: m different symbols and q productions with heads of
\* their own (over these symbols), each added t times with another body. merged: the additions that
\* returned what they should have; derived: the heads that are rewritten to one of their bodies.
Bulk(kind, m, q, t) ==
  [n |-> m, found |-> m, other |-> 0, prods |-> IF kind = "system" THEN q ELSE q * t, merged |-> q * t, derived |-> q]
\* It agrees with adding them one after the other.
BulkProd(i, j) == [l |-> <<>>, t |-> i, r |-> <<>>, bs |-> <<[c |-> -1, b |-> <<j>>]>>]
RECURSIVE BulkAdd(_, _, _, _, _)
BulkAdd(kind, ps, q, t, k) ==
  IF k = q * t THEN ps
  ELSE LET p == BulkProd(1 + (k % q), 1 + (k \div q))
       IN BulkAdd(kind, IF kind = "system" THEN Merge(ps, p) ELSE Append(ps, p), q, t, k + 1)
ASSUME \A kind \in {"system", "own"}, q, t \in 1..3 :
  LET ps == BulkAdd(kind, <<>>, q, t, 0) IN
  /\ Len(ps) = Bulk(kind, 9, q, t).prods
  /\ \A i \in 1..q : kind = "system" => StoredAs(ps, BulkProd(i, 1)).bs = [j \in 1..t |-> BulkProd(i, j).bs[1]]

Next == \E s \in Ids :
          \/ \E n \in Names : AddSymbol(s, n) \/ GetSymbol(s, n)
          \/ \E w \in {"blank", "code"} : FailSymbol(s, w)
          \/ \E p \in Productions : AddProduction(s, p) \/ ParseAndAdd(s, p)
          \/ \E m \in Malformed, v \in {"prod", "pap"} : FailProduction(s, m, v)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Systems == {s \in Ids : Stores[s] = "system"}
OneEntryPerHead == \A s \in Systems : Distinct(prods[s])
\* Every production's symbols are in the alphabet of its system.
Closed == \A s \in Systems : \A k \in 1..Len(prods[s]) :
            SymsOf(prods[s][k]) \subseteq alpha[s]
\* Everything added is there, in the order it was added (read off the history).
Added(s) == SelectSeq(h, LAMBDA e : e.o \in {"prod", "pap"} /\ e.s = s)
RECURSIVE AllBodies(_)
AllBodies(es) == IF es = <<>> THEN <<>> ELSE Head(es).p.bs \o AllBodies(Tail(es))
BodiesFor(s, hd) == AllBodies(SelectSeq(Added(s), LAMBDA e : HeadOf(e.p) = hd))
NothingLost == \A s \in Systems :
   /\ \A k \in 1..Len(prods[s]) : prods[s][k].bs = BodiesFor(s, HeadOf(prods[s][k]))
   /\ \A k \in 1..Len(Added(s)) : \E j \in 1..Len(prods[s]) : HeadOf(prods[s][j]) = HeadOf(Added(s)[k].p)
ListKeepsAll == \A s \in Ids \ Systems :
   prods[s] = [k \in 1..Len(Added(s)) |-> Added(s)[k].p]
AlphabetIsWhatWasGiven == \A s \in Ids :
   alpha[s] = h[1].alpha[s]
              \cup {h[k].n : k \in {j \in 2..Len(h) : h[j].o = "sym" /\ h[j].s = s}}
              \cup UNION {SymsOf(h[k].p) : k \in {j \in 2..Len(h) : 
                      h[j].s = s /\ (h[j].o = "pap" \/ (h[j].o = "prod" /\ Stores[s] = "system"))}}
\* Only ever growing; a failing or asking call changes nothing; a call on one store leaves the others alone.
Grows == [][\A s \in Ids : alpha[s] \subseteq alpha'[s] /\ Len(prods[s]) <= Len(prods'[s])]_vars
Last == h'[Len(h')]
Isolated == [][\A s \in Ids : s # Last.s => alpha'[s] = alpha[s] /\ prods'[s] = prods[s]]_vars
FailuresChangeNothing == [][Last.o \in {"badsym", "badprod", "get"} => UNCHANGED <<alpha, prods>>]_vars
=============================================================================
