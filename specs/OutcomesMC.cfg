CONSTANTS Syms = {"A", "B"}
          Unit = 2
          Chances = {0, 1, 2, 3}
          MaxBodies = 2
          MaxProds = 1
          MaxBody = 1
          MaxLen = 2
          MaxIter = 2
SPECIFICATION Spec
INVARIANTS EndsInAnOutcome AllPossibleAtFirst OnlyPossible SumsToOne Deterministic
CHECK_DEADLOCK FALSE
