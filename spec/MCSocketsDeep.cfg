SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxOps = 4
 Pool = {"resm4", "adism4", "adv", "aadv", "raw", "tap"}
INVARIANTS NoLeak Complete Coexist AllHear Refused PrintScript
PROPERTIES Independent Ends
