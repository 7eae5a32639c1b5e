INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 3
INVARIANTS NameInv TextInv TxtInv SvcInv PrintScript
