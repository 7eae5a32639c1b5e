SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxPkts = 1 MaxCalls = 2 Takes = {0, 70}
INVARIANTS MeaningIsRight OnceInOrder StopsAtOnce RetransmitOnSilence QueryFirst TimeLimit OwnDetails PrintScript
