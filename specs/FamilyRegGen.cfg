CONSTANTS Names = {"x", "y", "blank"}
          Contents = {1, 2}
          Blank = {"blank"}
          MaxOps = 4
SPECIFICATION Spec
VIEW view
INVARIANT OneWinner
PROPERTY NeverReplaced
ACTION_CONSTRAINT Show
CHECK_DEADLOCK FALSE
