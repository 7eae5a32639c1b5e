----------------------------- MODULE TraceVals ------------------------------
(* Conformance of values and sets of them (sessions of kind "val"; C26).     *)
(* State: the contents of the sorted and of the hashed set.                  *)
EXTENDS Values, TraceBase

VARIABLES s, l, st
S == T[s]
V == S.vals
N == Len(V)
Range(q) == {q[i] : i \in 1..Len(q)}

Ok(ev) ==
  CASE ev.op = "vals" ->  \* contents as built, of clones, and rebuilt from their parts
         ev.v = V /\ ev.c = V /\ ev.p = V
    [] ev.op = "cmp" ->
         /\ EqualityOk(V, ev.eq, ev.ne)
         /\ S.ty \in Ordered => (ev.ord => OrderOk(V, ev.m) /\ ev.pm = ev.m /\ HashOk(V, ev.h))
         /\ ev.ceq  \* every clone equals its original
    [] ev.op = "walk" ->  \* the labels of a name by reference, by value, as a list
         ev.r = V /\ ev.v = V /\ ev.l = V /\ ev.n = [i \in 1..N |-> Len(V[i])]
    [] ev.op \in {"ins", "has", "del"} ->
         LET v == V[ev.i] IN ev.bt = SetAnswer(st, ev.op, v) /\ ev.hs = SetAnswer(st, ev.op, v)
    [] ev.op = "end" ->  \* what both sets hold in the end, each element once
         /\ Range(ev.bt) = st /\ Len(ev.bt) = Cardinality(st)
         /\ Range(ev.hs) = st /\ Len(ev.hs) = Cardinality(st)
    [] OTHER -> FALSE

Init == s \in 1..Len(T) /\ l = 1 /\ st = {}
Next == /\ l <= Len(S.ev)
        /\ Ok(S.ev[l]) = TRUE
        /\ st' = IF S.ev[l].op \in {"ins", "has", "del"} THEN SetOp(st, S.ev[l].op, V[S.ev[l].i]) ELSE st
        /\ l' = l + 1 /\ s' = s
        /\ Say(s, l, l = Len(S.ev) /\ S.ev[l].op = "end")
=============================================================================
