SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxPkts = 3
INVARIANTS Everything Counts PrintScript
PROPERTIES OnlyErrorsEnd Continues
