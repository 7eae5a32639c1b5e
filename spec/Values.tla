------------------------------- MODULE Values --------------------------------
(* Labels, names, service types, instances, transports, numbers and record   *)
(* data as plain values: comparison, hashing and sets of them depend on      *)
(* their contents only.                                                      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

(* Content of a value: what its accessors return, made of numbers, strings   *)
(* and sequences.  Contents are compared within one kind of value.           *)
Ordered == {"label", "svc", "inst", "tr"}

Square(m, n) == Len(m) = n /\ \A i \in 1..n : Len(m[i]) = n
(* Equality is equality of contents, and /= is its negation. *)
EqualityOk(vs, eq, ne) ==
  LET n == Len(vs) IN
  /\ Square(eq, n) /\ Square(ne, n)
  /\ \A i, j \in 1..n : eq[i][j] = (vs[i] = vs[j]) /\ ne[i][j] = (vs[i] # vs[j])
(* Which order it is, is free: it has to be total and to agree with equality. *)
OrderOk(vs, m) ==
  LET n == Len(vs) IN
  /\ Square(m, n)
  /\ \A i, j \in 1..n : /\ m[i][j] \in {0 - 1, 0, 1}
                        /\ m[i][j] = 0 - m[j][i]
                        /\ (m[i][j] = 0) = (vs[i] = vs[j])
  /\ \A i, j, k \in 1..n : (m[i][j] <= 0 /\ m[j][k] <= 0) => m[i][k] <= 0
(* Equal values have equal hashes; nothing is said about different ones. *)
HashOk(vs, h) ==
  LET n == Len(vs) IN
  /\ Square(h, n)
  /\ \A i, j \in 1..n : vs[i] = vs[j] => h[i][j]

(* A set of values: one operation with its result. *)
SetOp(set, o, v) == CASE o = "ins" -> set \cup {v}
                      [] o = "del" -> set \ {v}
                      [] o = "has" -> set
SetAnswer(set, o, v) == IF o = "ins" THEN v \notin set ELSE v \in set
=============================================================================
