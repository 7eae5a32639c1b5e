INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 6
INVARIANTS NameInv TextInv TxtInv SvcInv PrintScript
