SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxPkts = 3 MaxCalls = 1 Takes = {0}
INVARIANTS MeaningIsRight OnceInOrder StopsAtOnce RetransmitOnSilence QueryFirst TimeLimit OwnDetails PrintScript
