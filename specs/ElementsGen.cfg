CONSTANTS Texts <- SomeTexts
          Numbers = {"zero", "third"}
          Radii = {"zero", "third", "huge"}
          Points <- SomePoints
          Chars = {"x", "amp", "quote", "lt"}
          MaxText = 1
          MaxOps = 3
SPECIFICATION Spec
VIEW view
INVARIANTS ReadsBack Once Absent
PROPERTIES DecorationsOnly
ACTION_CONSTRAINT Show
CHECK_DEADLOCK FALSE
