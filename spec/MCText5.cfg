INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 5
INVARIANTS NameInv TextInv TxtInv SvcInv PrintScript
