----------------------------- MODULE TraceWire -----------------------------
(* Conformance of the message decoder (sessions of kind "dec").             *)
(*   PROP = C01: only totality: no panic, no surplus entries, nothing after *)
(*               an error, nothing that is not in the message.              *)
(*   PROP = C02, C03: every entry as specified, record contents ignored.    *)
(*   PROP = C04: every entry including the decoded record.                  *)
EXTENDS Decoder, TraceBase

VARIABLES s, l, st

Weak == PROP = "C01"
NewState == [sec |-> 0 - 1, pos |-> 0, bad |-> FALSE, left |-> <<0, 0, 0, 0>>]

(* x is a part of b (searched for only in short messages). *)
Occurs(x, b) == /\ Len(x) <= Len(b)
                /\ Len(b) <= 120 => \E p \in 0..(Len(b) - Len(x)) : Slice(b, p, p + Len(x)) = x
NameOccurs(n, b) == \A i \in 1..Len(n) : ValidLabel(n[i]) /\ Occurs(n[i], b)

StepNew(b, d, ev) ==
  /\ ev.op = "new" /\ d.sec < 0
  /\ ev.ok = DecOpens(b)
  /\ ev.ok => /\ ev.h = Slice(b, 0, HeaderLen)
              /\ ~Weak => ev.g = HGetters(b)
  /\ st' = IF ev.ok THEN DecInit(b) ELSE [NewState EXCEPT !.sec = 9]

-----------------------------------------------------------------------------
(* Totality *)
NothingForeign(b, ev) ==
  /\ NameOccurs(ev.n, b)
  /\ ev.r = "rr" => /\ Occurs(ev.rd, b)
                    /\ \A i \in 1..Len(ev.rec.n) : NameOccurs(ev.rec.n[i], b)
                    /\ \A i \in 1..Len(ev.rec.x) : Occurs(ev.rec.x[i], ev.rd)
(* (= TRUE: TLC is to evaluate a formula here, not to enumerate its witnesses) *)
WeakNext(b, d, ev) ==
  /\ ev.op = "next" /\ d.sec \in 0..3
  /\ CASE ev.r = "none" -> st' = d
       [] ev.r = "err" -> st' = [d EXCEPT !.bad = TRUE]
       [] ev.r \in {"q", "rr"} ->
            /\ ~d.bad /\ d.left[d.sec + 1] > 0
            /\ (ev.r = "q") = (d.sec = 0)
            /\ NothingForeign(b, ev) = TRUE
            /\ st' = [d EXCEPT !.left[d.sec + 1] = @ - 1]
       [] OTHER -> FALSE
WeakGoto(b, d, ev) ==
  /\ ev.op = "goto" /\ d.sec \in 0..3 /\ Has(ev, "ok")
  /\ st' = IF ev.ok THEN [d EXCEPT !.sec = ev.s] ELSE [d EXCEPT !.sec = 9]

-----------------------------------------------------------------------------
(* Exact delivery *)
SameRec(ev, x) == /\ ev.k = x.k
                  /\ x.k # "err" => ev.i = x.i /\ ev.n = x.n /\ ev.x = x.x
SameEntry(b, ev, e) ==
  /\ ev.n = e.n /\ ev.t = e.t /\ ev.c = e.c
  /\ ev.r = "rr" => /\ ev.f = e.f /\ ev.ttl = e.ttl /\ ev.rd = Slice(b, e.rd, e.p)
                    /\ PROP = "C04" => SameRec(ev.rec, RecOf(b, e))
ExactNext(b, d, ev) ==
  /\ ev.op = "next" /\ d.sec \in 0..3
  /\ LET x == DecNext(b, d) IN
       /\ ev.r = x.r
       /\ ev.r \in {"q", "rr"} => SameEntry(b, ev, x.e)
       /\ st' = x.d
ExactGoto(b, d, ev) ==
  /\ ev.op = "goto" /\ d.sec \in 0..3 /\ Has(ev, "ok")
  /\ LET x == DecSkip(b, d, ev.s) IN
       /\ ~d.bad => ev.ok = ~x.bad
       /\ st' = IF ev.ok THEN [x EXCEPT !.bad = d.bad] ELSE [x EXCEPT !.sec = 9]

-----------------------------------------------------------------------------
Init == s \in 1..Len(T) /\ l = 1 /\ st = NewState
Next ==
  /\ l <= Len(T[s].ev)
  /\ LET ev == T[s].ev[l]
         b == T[s].b
     IN \/ StepNew(b, st, ev)
        \/ Weak /\ (WeakNext(b, st, ev) \/ WeakGoto(b, st, ev))
        \/ ~Weak /\ (ExactNext(b, st, ev) \/ ExactGoto(b, st, ev))
  /\ l' = l + 1 /\ s' = s
  /\ Say(s, l, l = Len(T[s].ev))
=============================================================================
