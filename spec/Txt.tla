-------------------------------- MODULE Txt --------------------------------
(* TXT metadata (RFC 6763, 6.4) as a finite map.  An entry is               *)
(* [lk, ks, h, v]: lower-case key, spellings under which it may be listed,   *)
(* h = 1 flag without value, h = 2 value v.                                 *)
EXTENDS Bytes

EqualsAt(e) == IF \E i \in 1..Len(e) : e[i] = 61 THEN CHOOSE i \in 1..Len(e) : e[i] = 61 /\ \A j \in 1..(i - 1) : e[j] # 61
               ELSE 0
KeyOf(e) == LET p == EqualsAt(e) IN IF p = 0 THEN e ELSE SubSeq(e, 1, p - 1)
Entry(e) == LET p == EqualsAt(e) IN
  [lk |-> Lower(KeyOf(e)), ks |-> {KeyOf(e)}, h |-> IF p = 0 THEN 1 ELSE 2, v |-> IF p = 0 THEN <<>> ELSE SubSeq(e, p + 1, Len(e))]
Usable(e) == KeyOf(e) # <<>> /\ IsUtf8(KeyOf(e))
Keys(m) == {e.lk : e \in m}

RECURSIVE TxtFold(_, _, _)
TxtFold(x, i, m) ==
  IF i > Len(x) THEN m
  ELSE TxtFold(x, i + 1, IF Usable(x[i]) /\ Lower(KeyOf(x[i])) \notin Keys(m) THEN m \cup {Entry(x[i])} ELSE m)
TxtFrom(x) == TxtFold(x, 1, {})
TxtAddFlag(m, k) ==
  LET old == {e \in m : e.lk = Lower(k)}
  IN (m \ old) \cup {[lk |-> Lower(k), ks |-> UNION ({{k}} \cup {e.ks : e \in old}), h |-> 1, v |-> <<>>]}
(* [h, v] with h = 0 if there is no such key. *)
TxtGet(m, k) == IF Lower(k) \in Keys(m) THEN LET e == CHOOSE e \in m : e.lk = Lower(k) IN [h |-> e.h, v |-> e.v]
                ELSE [h |-> 0, v |-> <<>>]

(* A listing (sequence of [k, h, v]) shows exactly the entries of m. *)
Lists(m, all) ==
  /\ Len(all) = Cardinality(m)
  /\ \A e \in m : \E i \in 1..Len(all) : Lower(all[i].k) = e.lk /\ all[i].k \in e.ks /\ all[i].h = e.h /\ all[i].v = e.v

(* Two TXT records carry the same metadata. *)
SameMeta(x, y) == TxtFrom(x) = TxtFrom(y)
(* The character strings that carry m, in some order (first spelling of each key). *)
EntryBytes(e) == (CHOOSE k \in e.ks : TRUE) \o (IF e.h = 2 THEN <<61>> \o e.v ELSE <<>>)
=============================================================================
