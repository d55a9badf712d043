----------------------------- MODULE DeriveRuns -----------------------------
(* C07, C08, C09 for strings of any size: matching and derivation of strings   *)
(* that are given as runs <<x, n>> of n equal symbols, by productions whose    *)
(* bodies are runs too and whose contexts have at most w symbols.  What is     *)
(* more than w symbols inside a run looks alike, so that one of these symbols  *)
(* stands for all.  That this agrees with LSystem is checked by DeriveRunsMC.  *)
EXTENDS LSystem, TLC

Least(a, b) == IF a < b THEN a ELSE b
Expand(runs) ==
  LET RECURSIVE Go(_, _)
      Go(n, s) == IF n > Len(runs) THEN s ELSE Go(n + 1, s \o [k \in 1..runs[n][2] |-> runs[n][1]])
  IN Go(1, <<>>)
\* Neighbouring runs of the same symbol are one run; empty ones are none.
Merge(runs) ==
  LET RECURSIVE Go(_, _)
      Go(n, m) == IF n > Len(runs) THEN m
                  ELSE IF runs[n][2] = 0 THEN Go(n + 1, m)
                  ELSE IF m # <<>> /\ m[Len(m)][1] = runs[n][1] THEN Go(n + 1, [m EXCEPT ![Len(m)][2] = @ + runs[n][2]])
                  ELSE Go(n + 1, Append(m, runs[n]))
  IN Go(1, <<>>)
\* The string with no more than w symbols at each end of a run and one between them;
\* for each of its symbols, how many symbols it stands for, and where the first is.
Clip(runs, w) == [n \in 1..Len(runs) |-> <<runs[n][1], Least(runs[n][2], 2 * w + 1)>>]
Sites(runs, w) ==
  LET RECURSIVE Go(_, _, _)
      Go(n, at, out) ==
        IF n > Len(runs) THEN out
        ELSE LET k == runs[n][2]
                 c == Least(k, 2 * w + 1)
                 here == [j \in 1..c |-> IF j <= w \/ k <= 2 * w THEN [at |-> at + j - 1, n |-> 1]
                                         ELSE IF j = w + 1 THEN [at |-> at + w, n |-> k - 2 * w]
                                         ELSE [at |-> at + k - c + j - 1, n |-> 1]]
             IN Go(n + 1, at + k, out \o here)
  IN Go(1, 1, <<>>)

\* One step. The body of a production is <<>> or a run.
RunOnce(ps, runs, w) ==
  LET t == Expand(Clip(runs, w))
      sites == Sites(runs, w)
      New(j) == LET c == Choice(ps, t, j) IN
                IF c = 0 THEN <<t[j], sites[j].n>>
                ELSE IF ps[c].b = <<>> THEN <<t[j], 0>> ELSE <<ps[c].b[1], ps[c].b[2] * sites[j].n>>
  IN Merge([j \in 1..Len(t) |-> New(j)])
RECURSIVE RunIterate(_, _, _, _)
RunIterate(ps, runs, w, n) == IF n = 0 THEN runs ELSE RunIterate(ps, RunOnce(ps, runs, w), w, n - 1)

\* The positions where p matches, as maximal intervals <<first, last>>.
RunHits(p, runs, w) ==
  LET t == Expand(Clip(runs, w))
      sites == Sites(runs, w)
      RECURSIVE Go(_, _)
      Go(j, out) == IF j > Len(t) THEN out
                    ELSE IF ~Matches(p, t, j) THEN Go(j + 1, out)
                    ELSE LET a == sites[j].at
                             b == sites[j].at + sites[j].n - 1
                         IN IF out # <<>> /\ out[Len(out)][2] = a - 1 THEN Go(j + 1, [out EXCEPT ![Len(out)][2] = b])
                            ELSE Go(j + 1, Append(out, <<a, b>>))
  IN Go(1, <<>>)
=============================================================================
