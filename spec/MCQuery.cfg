SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 2
INVARIANTS FromPackets OwnerPart Queries Judge PrintScript
