CONSTANTS Messages = {"empty", "word", "lines"}
          MaxOps = 3
SPECIFICATION Spec
VIEW view
INVARIANTS Passed
PROPERTIES Keeps
ACTION_CONSTRAINT Show
CHECK_DEADLOCK FALSE
