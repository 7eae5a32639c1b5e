SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxPkts = 2 MaxRounds = 1
INVARIANTS OwnResult OwnValues NoMixUp OwnTime PrintScript
PROPERTIES Isolation RoundsEnd
