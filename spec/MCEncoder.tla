----------------------------- MODULE MCEncoder -----------------------------
(* A reference encoder: writes entries while they fit, then only remembers  *)
(* that something was cut off.  Checked: whatever the caller does, its      *)
(* buffer always satisfies EncOutcome.  Prints the behaviours as scripts.   *)
EXTENDS Encoder, TLC, Json, IOUtils

CONSTANTS Depth, MaxCap
VARIABLES st, ops, cap, kept, trunc

A1 == <<<<97>>>>
A2 == <<<<97, 98>>, <<99>>>>
Q(n, t) == [o |-> "q", n |-> n, t |-> t, c |-> 1]
R(n, rec) == [o |-> "rr", n |-> n, c |-> 1, ttl |-> <<0, 120>>, rec |-> rec]
Ops == {Q(<<>>, 255), Q(A1, 1),
        R(A1, Rec("A", <<1, 2, 3, 4>>, <<>>, <<>>)),
        R(<<>>, Rec("TXT", <<>>, <<>>, <<<<>>, <<120>>>>)),
        R(<<>>, Rec("PTR", <<>>, <<A2>>, <<>>)),
        R(A1, Rec("SRV", <<0, 1, 258>>, <<<<>>>>, <<>>)),
        [o |-> "hdr", b |-> <<1, 2, 134, 5, 0, 9, 0, 0, 7, 0, 255, 255>>],
        [o |-> "sec"]}
Useful(op) == /\ op.o = "q" => st.sec = 0
              /\ op.o = "rr" => st.sec > 0
              /\ op.o = "sec" => st.sec < 3

Init == st = EncInit /\ ops = <<>> /\ cap \in HeaderLen..MaxCap /\ kept = 0 /\ trunc = FALSE
Do(op) ==
  /\ Len(ops) < Depth /\ Useful(op)
  /\ ops' = Append(ops, op)
  /\ st' = EncOp(st, op)
  /\ cap' = cap
  /\ LET fits == ~trunc /\ SizeUpTo(st'.es, Len(st'.es)) <= cap
     IN IF Len(st'.es) > Len(st.es)
        THEN kept' = kept + B2N(fits) /\ trunc' = ~fits
        ELSE UNCHANGED <<kept, trunc>>
Next == \E op \in Ops : Do(op)

(* What the reference encoder leaves in the buffer. *)
Out == LET w == EncWhole(st.hdr, SubSeq(st.es, 1, kept), trunc) IN w \o Zeros(cap - Len(w))
Used == SizeUpTo(st.es, kept)
Correct == /\ EncOutcome(st, cap, IF trunc THEN "err" ELSE "ok", IF trunc THEN 0 ELSE Used, Out)
           /\ EncOutcome(st, cap, "drop", 0, Out)
(* The predicate is not vacuous: flipping the flag or losing an entry is noticed. *)
Strict == /\ ~EncOutcome(st, cap, IF trunc THEN "ok" ELSE "err", Used, Out)
          /\ kept > 0 => ~EncOutcome(st, cap, "drop", 0,
               LET w == EncWhole(st.hdr, SubSeq(st.es, 1, kept - 1), trunc) IN w \o Zeros(cap - Len(w)))
Script == [k |-> "enc", cap |-> cap, fill |-> 255, ops |-> Append(ops, [o |-> IF cap % 3 = 0 THEN "drop" ELSE "fin"])]
PrintScript == (IOEnv.GEN = "1" /\ Len(ops) = Depth) => PrintT(<<"SCRIPT", ToJson(Script)>>)
=============================================================================
