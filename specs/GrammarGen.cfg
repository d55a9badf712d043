CONSTANTS Terms = {"A", "B", "<", ">", "->", "num", "bad"}
          MaxLen = 5
SPECIFICATION Spec
INVARIANTS MachineIsDeclared Emit
CHECK_DEADLOCK FALSE
