------------------------------ MODULE Matching ------------------------------
(* Which records a question asks for.                                       *)
EXTENDS Naturals, Sequences, FiniteSets
MB == 7  MG == 8  MR == 9  AXFR == 252  MAILB == 253  MAILA == 254  ALLTYPES == 255  ANYCLASS == 255
TypeMatches(q, t) == CASE q = ALLTYPES -> TRUE
                       [] q = MAILB -> t \in {MB, MG, MR}
                       [] q \in {AXFR, MAILA} -> FALSE
                       [] OTHER -> q = t
ClassMatches(q, c) == q = ANYCLASS \/ q = c
Values == 0..65535
TypesFor(q) == CASE q = ALLTYPES -> Values [] q = MAILB -> {MB, MG, MR} [] q \in {AXFR, MAILA} -> {} [] OTHER -> {q}
ClassesFor(q) == IF q = ANYCLASS THEN Values ELSE {q}
=============================================================================
