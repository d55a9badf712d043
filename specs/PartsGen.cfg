CONSTANTS Heads <- SomeHeads
          Strings <- SomeStrings
          Chances <- SomeChances
          BadChances = {"below", "above", "nan", "infinite"}
          MaxOps = 3
SPECIFICATION Spec
VIEW view
INVARIANTS AtLeastOneBody
PROPERTIES HeadsStay BodiesStay
ACTION_CONSTRAINT Show
CHECK_DEADLOCK FALSE
