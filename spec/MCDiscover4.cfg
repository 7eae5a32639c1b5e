SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxPkts = 4 MaxCalls = 1 Takes = {0, 70}
INVARIANTS MeaningIsRight OnceInOrder StopsAtOnce RetransmitOnSilence QueryFirst TimeLimit OwnDetails PrintScript
