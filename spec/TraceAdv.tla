------------------------------ MODULE TraceAdv ------------------------------
(* Conformance of the advertiser: packet handling (kind "adv"; C10-C12) and  *)
(* the listeners (kind "listen"; C13).                                       *)
(*   db    registered records                                                *)
(*   seen  <<records registered, packet, result, reply>> so far              *)
(*   pc    listener: "sock", "recv", "reply", "err", "left", "end"            *)
(*   cur   the received packet; os: the error; round: listening again         *)
EXTENDS Advertiser, TraceBase

VARIABLES s, l, st

RegKey == {"o", "h", "ip"}

AdvEv(ev) ==
  LET op == T[s].ops[l] IN
    IF op.o = "pkt"
    THEN /\ ev.op = "pkt" /\ ev.r # "panic" /\ ev.same
         /\ AdvOutcome(st.db, op.b, ev.r, ev.b) = TRUE
         /\ (\A i \in 1..Len(st.seen) :
               (st.seen[i][1] = Len(st.db) /\ st.seen[i][2] = op.b) => st.seen[i][3] = ev.r /\ st.seen[i][4] = ev.b) = TRUE
         /\ st' = [st EXCEPT !.seen = Append(@, <<Len(st.db), op.b, ev.r, ev.b>>)]
    ELSE /\ ev.op = "reg" /\ ev.r = "ok"
         /\ st' = [st EXCEPT !.db = AdvRegister(@, NormOp(op))]

Registered(db, ops) == AdvRegisterAll(db, [i \in 1..Len(ops) |-> NormOp(ops[i])], 1)
More == IF Has(T[s], "more") THEN T[s].more ELSE <<>>
Round == IF st.round = 0 THEN T[s] ELSE More[st.round]
Dropped(ev) == ev.op = "ret" /\ ev.r = "dropped" /\ T[s].m = "async" /\ Has(Round, "stop")
ListenEv(ev) ==
  CASE st.pc = "sock" ->
         /\ ev.op = "sock" /\ ev.port = 5353 /\ ev.mc = <<224, 0, 0, 251>>
         /\ st' = [st EXCEPT !.pc = "recv", !.db = Registered(@, T[s].ops)]
    [] st.pc = "recv" ->
         \/ /\ ev.op = "recv"
            /\ st' = [st EXCEPT !.pc = IF AdvKind(st.db, ev.b) = "reply" THEN "reply" ELSE "recv", !.cur = ev]
         \/ ev.op = "rep" /\ st' = st  \* the same packet with the same reaction, once more or many times
         \/ /\ ev.op = "rerr" /\ st' = [st EXCEPT !.pc = "err", !.os = ev.os]
         \/ /\ Dropped(ev) /\ st' = [st EXCEPT !.pc = "left", !.os = 0]
    [] st.pc = "reply" ->
         /\ ev.op = "send" /\ ev.to = st.cur.from
         /\ AdvReply(st.db, st.cur.b, ev.b) = TRUE
         /\ st' = [st EXCEPT !.pc = IF ev.os = 0 THEN "recv" ELSE "err", !.os = ev.os]
    [] st.pc = "err" -> /\ ev.op = "ret" /\ ev.r = "err" /\ ev.os = st.os
                        /\ st' = [st EXCEPT !.pc = "left"]
    [] st.pc = "left" -> \* an async listener that was dropped had kept up with the packets
         /\ ev.op = "left" /\ (st.os = 0 => ev.n = 0)
         /\ st' = [st EXCEPT !.pc = "end"]
    [] st.pc = "end" -> \* more registrations, and the listener listens again
         /\ ev.op = "round" /\ ev.n = st.round + 1 /\ ev.n <= Len(More)
         /\ st' = [st EXCEPT !.pc = "recv", !.round = ev.n, !.os = 0, !.db = Registered(@, More[ev.n].ops)]
    [] OTHER -> FALSE /\ st' = st

Init == /\ s \in 1..Len(T) /\ l = 1
        /\ st = [db |-> AdvInit(T[s].h, T[s].ip), seen |-> <<>>, pc |-> "sock", cur |-> <<>>, os |-> 0, round |-> 0]
Next ==
  /\ l <= Len(T[s].ev)
  /\ LET ev == T[s].ev[l] IN
       /\ ev.op \notin {"panic", "abort", "hang"}
       /\ IF T[s].k = "adv" THEN AdvEv(ev) ELSE ListenEv(ev)
  /\ l' = l + 1 /\ s' = s
  /\ Say(s, l, l = Len(T[s].ev) /\ (T[s].k = "listen" => (st'.pc = "end" /\ st'.round = Len(More))))
=============================================================================
