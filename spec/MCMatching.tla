----------------------------- MODULE MCMatching -----------------------------
(* The sets by which whole rows of the matching table are checked agree with *)
(* the matching predicates, row by row.                                      *)
EXTENDS Matching
VARIABLES q
Init == q \in {0, 1, 7, 8, 9, 10, 28, 33, 251, 252, 253, 254, 255, 256, 511, 65535}
Next == UNCHANGED q
Rows == /\ {t \in Values : TypeMatches(q, t)} = TypesFor(q)
        /\ {t \in Values : ClassMatches(q, t)} = ClassesFor(q)
=============================================================================
