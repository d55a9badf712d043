------------------------------ MODULE DeriveGen ------------------------------
(* Systems built production by production; each is written out with what it    *)
(* makes of every short string (one step, or several steps in a row).          *)
EXTENDS LSystem, TLC, Json
CONSTANTS Syms, MaxCtx, MaxBody, MaxProds, MaxLen, Iters, MaxStr

VARIABLE ps
Heads == [l : Contexts(Syms, MaxCtx), t : Syms, r : Contexts(Syms, MaxCtx)]
Init == ps = <<>>
Add == \E h \in Heads, b \in SeqsUpTo(Syms, MaxBody) :
          /\ Len(ps) < MaxProds
          /\ LET p == [l |-> h.l, t |-> h.t, r |-> h.r, b |-> b]
             IN /\ \A i \in 1..Len(ps) : HeadOf(ps[i]) # HeadOf(p)
                /\ ps' = Append(ps, p)
Next == Add
Spec == Init /\ [][Next]_ps

Strings == SeqsUpTo(Syms, MaxLen)
\* A symbol that no production mentions cuts a string into parts that are derived
\* independently.  (The drivers use this to predict very long strings.)
Cut == \A s, u \in SeqsUpTo(Syms, 2) : Once(ps, s \o <<"Z">> \o u) = Once(ps, s) \o <<"Z">> \o Once(ps, u)

Emit == PrintT("@@" \o ToJson([ps |-> ps,
                 runs |-> {Steps(ps, s, Iters, MaxStr) : s \in Strings}]))
=============================================================================
