------------------------------ MODULE TraceEnc ------------------------------
(* Conformance of the message encoder (sessions of kind "enc"; C05, C06).   *)
EXTENDS Encoder, TraceBase

VARIABLES s, l

Init == s \in 1..Len(T) /\ l = 1
Next ==
  /\ l <= Len(T[s].ev)
  /\ LET ev == T[s].ev[l] IN
       /\ l = 1 /\ ev.op = "done" /\ ev.intact
       /\ EncOutcome(EncOps(EncInit, T[s].ops, 1), T[s].cap, ev.r, ev.len, ev.out) = TRUE
  /\ l' = l + 1 /\ s' = s
  /\ Say(s, l, l = Len(T[s].ev))
=============================================================================
