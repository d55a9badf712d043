CONSTANTS MaxLines = 4
          Lines <- All
SPECIFICATION GSpec
INVARIANTS ByKind Emit
PROPERTIES BlankIsNothing BadStaysBad
CHECK_DEADLOCK FALSE
