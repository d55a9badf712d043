------------------------------- MODULE Derive -------------------------------
(* C08, C09.  The derivation as the program carries it out: an iteration loop *)
(* around a scan of the current string, which appends one replacement after   *)
(* the other to a result.  It refines the atomic, parallel step of LSystem.   *)
EXTENDS LSystem, TLC

CONSTANTS Syms, Bodies, Ctxs, MaxProds, MaxLen, MaxIter, MaxStr

Prods == [l : Ctxs, t : Syms, r : Ctxs, b : Bodies]

VARIABLES ps,      \* the productions, in the order they were added
          orig,    \* the string that was to be derived
          want,    \* the number of iterations that was asked for
          cur,     \* the current string
          pos,     \* how many of its symbols have been replaced
          out,     \* their replacements
          done     \* completed iterations
vars == <<ps, orig, want, cur, pos, out, done>>

Systems == {q \in UNION {[1..k -> Prods] : k \in 0..MaxProds} : Distinct(q)}

Init == /\ ps \in Systems
        /\ orig \in SeqsUpTo(Syms, MaxLen)
        /\ want \in 0..MaxIter
        /\ cur = orig /\ pos = 0 /\ out = <<>> /\ done = 0
Scan == /\ done < want /\ pos < Len(cur)
        /\ pos' = pos + 1
        /\ out' = out \o Replacement(ps, cur, pos + 1)   \* looks at cur, never at out
        /\ UNCHANGED <<ps, orig, want, cur, done>>
EndOfScan == /\ done < want /\ pos = Len(cur)
             /\ cur' = out /\ out' = <<>> /\ pos' = 0 /\ done' = done + 1
             /\ UNCHANGED <<ps, orig, want>>
Next == Scan \/ EndOfScan
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Small == Len(cur) <= MaxStr

Terminated == done = want
ScanIsPrefix == out = Join(ps, cur, pos)
IterationsCount == cur = Iterate(ps, orig, done)
Result == Terminated => cur = Iterate(ps, orig, want)
EmptyStaysEmpty == orig = <<>> => cur = <<>>
Untouched == \A i \in 1..pos : Choice(ps, cur, i) = 0 => Replacement(ps, cur, i) = <<cur[i]>>
Finishes == <>Terminated

\* Refinement: the same thing with the string replaced at once.
AInit == cur = orig /\ done = 0
AStep == done < want /\ cur' = Once(ps, cur) /\ done' = done + 1 /\ UNCHANGED <<ps, orig, want>>
Atomic == AInit /\ [][AStep]_<<ps, orig, want, cur, done>>
=============================================================================
