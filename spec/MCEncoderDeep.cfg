INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 4
 MaxCap = 60
INVARIANTS Correct Strict PrintScript
