SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 4 Types = {0, 1000, 1, 2, 6, 15, 16, 28, 33}
INVARIANTS Named Healed PrintScript
PROPERTY Final
