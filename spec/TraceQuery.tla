----------------------------- MODULE TraceQuery -----------------------------
(* Conformance of the query and answer helpers (sessions of kind "query";    *)
(* C24).  State: the addresses collected so far, the id of the last query.   *)
EXTENDS Query, TraceBase

VARIABLES s, l, st

Rec4(v) == Rec(v.k, v.i, v.n, v.x)
AskEv(o, ev) ==
  LET res == o.o = "rq"
      ts == IF res THEN <<TA, TAAAA>> ELSE o.ts
  IN /\ ev.place /\ ev.guard
     /\ AskOutcome(o.n, ts, res, o.cap, ev.ok, ev.b) = TRUE
     /\ ((res /\ ev.ok) => HId(ev.b) # st.id) = TRUE
     /\ st' = IF res /\ ev.ok THEN [st EXCEPT !.id = HId(ev.b)] ELSE st
CollectEv(o, ev) ==
  LET old == IF o.clear = 1 THEN <<>> ELSE st.ips
  IN /\ CollectOutcome(old, o.b, ev.ok, ev.ips) = TRUE
     /\ st' = [st EXCEPT !.ips = ev.ips]
TellEv(o, ev) ==
  /\ TellOutcome(o.b, IF Has(o, "own") THEN <<o.own>> ELSE <<>>, o.stop, ev.ok, ev.brk,
                 [i \in 1..Len(ev.vals) |-> Rec4(ev.vals[i])]) = TRUE
  /\ st' = st
IsEv(o, ev) == ev.r = InstanceOf(o.i, o.s) /\ st' = st

Init == s \in 1..Len(T) /\ l = 1 /\ st = [ips |-> <<>>, id |-> 0 - 1]
Next ==
  /\ l <= Len(T[s].ev)
  /\ LET ev == T[s].ev[l]
         o == T[s].ops[l]
     IN /\ ev.op = o.o
        /\ CASE o.o \in {"rq", "dq"} -> AskEv(o, ev)
             [] o.o = "ra" -> CollectEv(o, ev)
             [] o.o = "da" -> TellEv(o, ev)
             [] o.o = "is" -> IsEv(o, ev)
             [] OTHER -> FALSE
  /\ l' = l + 1 /\ s' = s
  /\ Say(s, l, l = Len(T[s].ev))
=============================================================================
