CONSTANTS Chars = {}
          Blank = {"sp", "wide"}
          MaxLen = 0
SPECIFICATION TSpec
INVARIANTS KindsPrint
CHECK_DEADLOCK FALSE
