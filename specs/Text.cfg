CONSTANTS Fragments = {"w", "s", "<", ">", "-", ";", ":", "=", "#", "num", "nl", "initial", "n", "delta"}
          MaxLen = 4
SPECIFICATION Spec
INVARIANT Emit
CONSTRAINT Typing
CHECK_DEADLOCK FALSE
