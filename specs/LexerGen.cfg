CONSTANTS Alphabet = {"w", "s", "<", ">", "-", ";"}
          MaxLen = 6
SPECIFICATION Spec
INVARIANTS NothingDropped InOrder OneKind Maximal RoundTrip SpacesOnlySeparate RunsAgree Periodic Emit
CHECK_DEADLOCK FALSE
