SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxPkts = 2 MaxCalls = 2
INVARIANTS OwnFirstAnswer MeaningIsRight QueriesFirst EveryServer TimeoutIffSilent ErrorsReported PrintScript
