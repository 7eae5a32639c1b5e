INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 2
 Flags = {0, 65535, 43690, 21845, 1234, 112}
INVARIANTS Agree PrintScript
