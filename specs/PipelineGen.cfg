CONSTANTS MaxLines = 4
          Lines <- Some
          Angles = FALSE
SPECIFICATION GSpec
INVARIANTS Rewritten OnePerForward RefusedExactly Joined InsideCanvas ExactSteps Emit
CHECK_DEADLOCK FALSE
