CONSTANTS Alphabet = {"w", "s", "<", ">", "-", ";", "+", "(", ")"}
          MaxLen = 1000000
SPECIFICATION TSpec
INVARIANT Invariants
CHECK_DEADLOCK FALSE
