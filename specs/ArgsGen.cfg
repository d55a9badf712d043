CONSTANTS MaxItems = 4
          Spellings = "few"
          Plants = {"a.plant", "b.plant"}
SPECIFICATION Spec
INVARIANTS ReadsAsWhole OrderIsWithoutMeaning WrongLinesDoNothing OnlyInterpretSaves VerboseIsOnlyTalk Emit
CHECK_DEADLOCK FALSE
