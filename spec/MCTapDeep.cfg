SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxPkts = 4
INVARIANTS Everything Counts PrintScript
PROPERTIES OnlyErrorsEnd Continues
