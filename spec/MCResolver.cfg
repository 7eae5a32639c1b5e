SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxPkts = 3 MaxCalls = 1
INVARIANTS OwnFirstAnswer MeaningIsRight QueriesFirst EveryServer TimeoutIffSilent ErrorsReported PrintScript
PROPERTIES Terminates
