CONSTANTS Quarter = 6
          MaxOps = 3
          Turns <- SomeTurns
          Offsets <- SomeOffsets
          Scales = {2}
          Knowns = {2}
SPECIFICATION GSpec
INVARIANTS FourQuartersAreNone NegationIsHalfTurn EmitFull
PROPERTIES TurnsKeepLength TurnsCompose OffsetKeepsShape
CHECK_DEADLOCK FALSE
