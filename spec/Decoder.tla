------------------------------ MODULE Decoder ------------------------------
(* The streaming message decoder as a state machine over one message.       *)
(*   sec   current section 0..3           pos   where the next entry starts *)
(*   left  entries left in each section   bad   an entry failed to decode   *)
EXTENDS Wire

DecInit(b) == [sec |-> 0, pos |-> HeaderLen, bad |-> FALSE,
               left |-> <<HCount(b, 0), HCount(b, 1), HCount(b, 2), HCount(b, 3)>>]
DecOpens(b) == Len(b) >= HeaderLen

(* What `next` must return in state d: "none", "err" or an entry. *)
DecNext(b, d) ==
  IF d.bad \/ d.left[d.sec + 1] = 0 THEN [r |-> "none", d |-> d, e |-> NoEntry]
  ELSE LET e == IF d.sec = 0 THEN ReadQuestion(b, d.pos) ELSE ReadRR(b, d.pos) IN
    IF e.ok
    THEN [r |-> IF d.sec = 0 THEN "q" ELSE "rr", e |-> e,
          d |-> [d EXCEPT !.pos = e.p, !.left[d.sec + 1] = @ - 1]]
    ELSE [r |-> "err", e |-> NoEntry, d |-> [d EXCEPT !.bad = TRUE]]

(* Skipping to section `to` > d.sec: passes every entry in between. *)
RECURSIVE DecSkip(_, _, _)
DecSkip(b, d, to) ==
  IF d.bad \/ d.sec = to THEN [d EXCEPT !.sec = to]
  ELSE LET x == DecNext(b, d) IN
    IF x.r = "none" THEN DecSkip(b, [d EXCEPT !.sec = d.sec + 1], to)
    ELSE DecSkip(b, x.d, to)
=============================================================================
