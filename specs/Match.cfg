CONSTANTS Syms = {"A", "B"}
          MaxCtx = 2
          MaxLen = 5
SPECIFICATION Spec
INVARIANTS WalkIsMatch Local EmptyIsAbsent Parts Emit
PROPERTY Stable
CHECK_DEADLOCK FALSE
