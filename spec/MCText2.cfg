INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 2
INVARIANTS NameInv TextInv TxtInv SvcInv PrintScript
