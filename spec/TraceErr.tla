------------------------------ MODULE TraceErr ------------------------------
(* Conformance of errors (C27): sessions of kinds "dec", "enc", "name",      *)
(* "svc", "query" and "conv"; only what an error says is judged here.        *)
EXTENDS Errors, TraceBase

VARIABLES s, l, st
S == T[s]
NewState == [sec |-> 0 - 1, pos |-> 0, bad |-> FALSE, left |-> <<0, 0, 0, 0>>]

(* Decoding.  Deviations other than in errors are not this property's. *)
DecOk(ev) ==
  CASE ev.op = "new" -> ~ev.ok => ev.e = "Eof"
    [] ev.op = "next" ->
         LET x == DecNext(S.b, st) IN
         CASE ev.r = "err" /\ x.r = "err" -> ev.e = EntryWhy(S.b, st.pos)
           [] ev.r = "rr" /\ x.r = "rr" ->
                (ev.rec.k = "err" /\ RecOf(S.b, x.e).k = "err") => ev.rec.e = RecWhy(S.b, x.e.p, x.e.rd, x.e.t)
           [] OTHER -> TRUE
    [] ev.op = "goto" -> (Has(ev, "ok") /\ ~ev.ok /\ ~st.bad) =>
         LET x == DecSkip(S.b, st, ev.s) IN x.bad => ev.e = EntryWhy(S.b, x.pos)
    [] OTHER -> TRUE
DecAfter(ev) ==
  CASE ev.op = "new" -> IF ev.ok THEN DecInit(S.b) ELSE NewState
    [] ev.op = "next" -> DecNext(S.b, st).d
    [] ev.op = "goto" -> DecSkip(S.b, st, ev.s)
    [] OTHER -> st

PureOk(ev) ==
  CASE S.k = "enc" -> ev.r = "err" => ev.e = "Truncated"
    [] S.k = "name" -> LET o == S.ops[l] IN
         CASE o.o = "label" -> ~ev.ok => ev.e = PartWhy(o.b) \/ ValidLabel(o.b)
           [] o.o = "parse" -> ~ev.ok => ev.e = TextWhy(o.b) \/ TextValid(o.b)
           [] OTHER -> TRUE
    [] S.k = "svc" -> LET o == S.ops[l] IN
         CASE o.o = "ptr" -> /\ (~ev.sok /\ ~PtrIsService(o.n)) => ev.se = PtrWhy(o.n, 0)
                             /\ (~ev.iok /\ ~PtrIsInstance(o.n)) => ev.ie = PtrWhy(o.n, 1)
           [] o.o = "tr" -> ~ev.ok => ev.e = "InvalidValue"
           [] OTHER -> TRUE
    [] S.k = "query" -> (ev.op \in {"rq", "dq"} /\ ~ev.ok) => ev.e = "Truncated"
    \* One event per error: what it becomes, and its text.
    [] S.k = "conv" -> /\ ev.op = "conv" /\ {ev.all[i].e : i \in 1..Len(ev.all)} = Causes
                       /\ \A i \in 1..Len(ev.all) : /\ IoKindOk(ev.all[i].e, ev.all[i].k)
                                                    /\ ev.all[i].d # <<>> /\ ev.all[i].io # <<>>
                                                    /\ \A j \in 1..Len(ev.all) : i # j => ev.all[i].d # ev.all[j].d

Init == s \in 1..Len(T) /\ l = 1 /\ st = NewState
Next ==
  /\ l <= Len(S.ev)
  /\ LET ev == S.ev[l] IN
       IF S.k = "dec" THEN DecOk(ev) = TRUE /\ st' = DecAfter(ev)
       ELSE PureOk(ev) = TRUE /\ st' = st
  /\ l' = l + 1 /\ s' = s
  /\ Say(s, l, l = Len(S.ev))
=============================================================================
