CONSTANTS Syms <- Seven
          Stores <- Full
          K = 5
          MaxLen = 5
SPECIFICATION GSpec
INVARIANTS OneSegmentPerForward StepsAreUnit ErrorExactly BranchesLeaveNoTrace Emit
CHECK_DEADLOCK FALSE
