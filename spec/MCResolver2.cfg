SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxPkts = 1 MaxCalls = 2
INVARIANTS OwnFirstAnswer MeaningIsRight QueriesFirst EveryServer TimeoutIffSilent ErrorsReported PrintScript
