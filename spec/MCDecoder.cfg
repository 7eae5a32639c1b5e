INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 3
 MaxChunks = 2
 Stride = 1
INVARIANTS Agrees Announced Inside Complete Terminates Legal PrintScript
PROPERTY Silent
