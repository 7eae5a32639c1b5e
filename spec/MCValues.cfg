SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS NC = 3 Depth = 3
INVARIANTS Answers Contents Laws PrintScript
