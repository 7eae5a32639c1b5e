INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 3
 MaxCap = 50
INVARIANTS Correct Strict PrintScript
