INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 4
 MaxChunks = 3
 Stride = 40
INVARIANTS Agrees Announced Inside Complete Terminates Legal PrintScript
PROPERTY Silent
