------------------------------ MODULE TraceTap -------------------------------
(* Conformance of the tap (sessions of kind "tap").                          *)
(*   pend  lines due for the last packet; bad: it does not decode completely *)
EXTENDS Format, TraceBase

VARIABLES s, l, st

Step(ev) ==
  CASE st.pc = "sock" ->
         /\ ev.op = "sock" /\ ev.port = 5353 /\ ev.mc = <<224, 0, 0, 251>>
         /\ st' = [st EXCEPT !.pc = "run"]
    [] st.pc = "run" /\ ev.op = "recv" ->
         /\ st.pend = <<>>
         /\ st' = [st EXCEPT !.pend = Lines(ev.b), !.bad = ~ReadMessage(ev.b).ok]
    [] st.pc = "run" /\ ev.op = "line" ->
         /\ (IF st.pend # <<>> THEN Matches(st.pend[1], ev.b) ELSE st.bad) = TRUE
         /\ st' = [st EXCEPT !.pend = IF @ = <<>> THEN @ ELSE Tail(@)]
    [] st.pc = "run" /\ ev.op = "rerr" ->
         /\ st.pend = <<>>
         /\ st' = [st EXCEPT !.pc = "err", !.os = ev.os]
    [] st.pc = "err" -> /\ ev.op = "ret" /\ ev.r = "err" /\ ev.os = st.os
                        /\ st' = [st EXCEPT !.pc = "end"]
    [] OTHER -> FALSE /\ st' = st

Init == /\ s \in 1..Len(T) /\ l = 1
        /\ st = [pc |-> "sock", pend |-> <<>>, bad |-> FALSE, os |-> 0]
Next ==
  /\ l <= Len(T[s].ev)
  /\ Step(T[s].ev[l])
  /\ l' = l + 1 /\ s' = s
  /\ Say(s, l, l = Len(T[s].ev) /\ st'.pc = "end")
=============================================================================
