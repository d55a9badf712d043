CONSTANTS Elems = {"A", "B", "U"}
          MaxList = 2
          MaxOps = 4
SPECIFICATION Spec
VIEW view
INVARIANTS OnlyWhatWasPutIn
PROPERTIES CopiesAreIndependent PushesAtTheEnd
ACTION_CONSTRAINT Show
CHECK_DEADLOCK FALSE
