SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxPkts = 2 MaxRounds = 2
INVARIANTS OwnResult OwnValues NoMixUp OwnTime PrintScript
PROPERTIES Isolation
