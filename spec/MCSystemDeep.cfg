SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Fates <- FatesT LateFates <- LateQ NextFates <- NextT
INVARIANTS Sound Complete Details Resolved Persistent PrintScript
PROPERTIES Terminates
