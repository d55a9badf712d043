CONSTANTS Counts = {"zero", "many"}
          Angles = {"right", "small"}
          Sizes = {"zero", "some"}
          MaxOps = 3
SPECIFICATION Spec
VIEW view
INVARIANTS DefaultsAgree
PROPERTIES Keeps
ACTION_CONSTRAINT Show
CHECK_DEADLOCK FALSE
