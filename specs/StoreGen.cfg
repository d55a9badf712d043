CONSTANTS Stores <- One
          Starts <- StartsOne
          Names = {"A", "B", "C", "D"}
          Productions <- MCProductions
          Malformed = {"no arrow", "no head", "two targets", "chance"}
          MaxOps = 3
          Probes <- MCProbes
SPECIFICATION Spec
VIEW view
INVARIANTS OneEntryPerHead Closed NothingLost ListKeepsAll AlphabetIsWhatWasGiven
PROPERTIES Grows Isolated FailuresChangeNothing
ACTION_CONSTRAINT Show
CHECK_DEADLOCK FALSE
