SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Fates <- FatesQ LateFates <- LateQ NextFates <- NextQ
INVARIANTS Sound Complete Details Resolved Persistent PrintScript
PROPERTIES Terminates
