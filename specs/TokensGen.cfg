CONSTANTS Chars = {"-", ">", "<", ";", "x", "(", "sp", "wide"}
          Blank = {"sp", "wide"}
          MaxLen = 4
SPECIFICATION Spec
INVARIANTS Emit KindsPrint SymbolsAreNoSeparators NamesStay
CHECK_DEADLOCK FALSE
