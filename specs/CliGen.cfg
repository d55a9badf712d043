CONSTANTS RunInputs <- Inputs
          RunOutputs <- Outputs
          RunSizes <- SomeSizes
          RunTerminals <- Fine
SPECIFICATION GSpec
INVARIANTS FailureIsReported Emit
PROPERTIES SuccessExactlyWhenSaved RunIsOneAction FaultyInputLeavesFiles EveryRunEnds
CHECK_DEADLOCK FALSE
