SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxOps = 3
 Pool = {"resm4", "resm6", "aresm4", "aresm6", "dism4", "adism4", "adv", "aadv", "raw", "tap"}
INVARIANTS NoLeak Complete Coexist AllHear Refused PrintScript
PROPERTIES Independent Ends
