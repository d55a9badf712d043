CONSTANTS Names = {"A", "B"}
          Descriptions = {"", "one", "two"}
          MaxDefs = 4
SPECIFICATION Spec
INVARIANTS LastCounts AlphabetIsDefined Emit
CHECK_DEADLOCK FALSE
