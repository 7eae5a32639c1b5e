--------------------------------- MODULE Query ---------------------------------
(* The sans-I/O helpers for other clients: encoding one query, decoding one   *)
(* answer.  They work on a caller's buffers: a list of addresses that grows,  *)
(* a callback that is told every record.                                      *)
EXTENDS Client

QuerySize(name, ts) == HeaderLen + Len(ts) * (WireLen(name) + 4)
(* One question per type, in the given order, and nothing else. *)
AsksFor(pkt, name, ts, rd) ==
  LET d == ReadMessage(pkt) IN
    /\ d.ok
    /\ ~HIsResponse(pkt) /\ HOpcode(pkt) = 0 /\ HRcode(pkt) = 0 /\ ~HTruncated(pkt)
    /\ rd => HRecDesired(pkt)
    /\ Len(d.s[1]) = Len(ts)
    /\ \A i \in 1..Len(ts) : d.s[1][i].n = name /\ d.s[1][i].t = ts[i] /\ d.s[1][i].c = 1
    /\ d.s[2] = <<>> /\ d.s[3] = <<>> /\ d.s[4] = <<>>
EncAsk(id, name, ts, rd) ==
  EncHeader(id, IF rd THEN 256 ELSE 0, Len(ts), 0, 0, 0) \o Flatten([k \in 1..Len(ts) |-> EncQuestion(name, ts[k], 1)])
(* Encoding into a buffer of cap bytes (cap >= HeaderLen) gives ok and a message, or fails. *)
AskOutcome(name, ts, rd, cap, ok, out) ==
  /\ QuerySize(name, ts) <= cap => ok
  /\ ok => Len(out) <= cap /\ AsksFor(out, name, ts, rd)

Opens(pkt) == Len(pkt) >= HeaderLen
Questions(pkt) == ReadEntries(pkt, 0, HCount(pkt, 0), HeaderLen)
Kind(pkt, e) == RecOf(pkt, e).k
RECURSIVE UpToBad(_, _, _)
UpToBad(pkt, es, i) == IF i > Len(es) \/ Kind(pkt, es[i]) = "err" THEN SubSeq(es, 1, i - 1) ELSE UpToBad(pkt, es, i + 1)
IsPrefix2(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
(* Collecting addresses: old and new are the list before and after. *)
CollectOutcome(old, pkt, ok, new) ==
  IF ~Opens(pkt) THEN ~ok /\ new = old
  ELSE IF ~HIsResponse(pkt) THEN ok /\ new = old
  ELSE LET a == Answers(pkt)
           good == UpToBad(pkt, a.es, 1)
       IN IF a.ok /\ good = a.es THEN ok /\ new = old \o AddrsFrom(pkt, a.es, 1)
          ELSE ~ok /\ IsPrefix2(old, new) /\ IsPrefix2(new, old \o AddrsFrom(pkt, good, 1))

(* The records a callback is told: all that decode; of one owner only, if any is given. *)
RECURSIVE ToldFrom(_, _, _, _)
ToldFrom(pkt, es, owner, i) ==
  IF i > Len(es) THEN <<>>
  ELSE (IF (owner = <<>> \/ NameEqCI(es[i].n, owner[1])) /\ Kind(pkt, es[i]) \notin {"err", "none"} THEN <<RecOf(pkt, es[i])>> ELSE <<>>)
       \o ToldFrom(pkt, es, owner, i + 1)
Told(pkt, owner) == ToldFrom(pkt, Answers(pkt).es, owner, 1)
(* stop: the callback asks to stop when told the stop-th record (0: never). *)
TellOutcome(pkt, owner, stop, ok, brk, vals) ==
  LET all == IF Opens(pkt) THEN Told(pkt, owner) ELSE <<>>
      stops == stop \in 1..Len(all)
  IN /\ Len(vals) = IF stops THEN stop ELSE Len(all)
     /\ \A i \in 1..Len(vals) : vals[i] = all[i]
     /\ brk = stops
     /\ brk => ok
     /\ ~Opens(pkt) => ~ok
     /\ (Opens(pkt) /\ ~HIsResponse(pkt)) => ok
     /\ (Opens(pkt) /\ HIsResponse(pkt) /\ ~Questions(pkt).ok) => ~ok
     /\ (Opens(pkt) /\ HIsResponse(pkt) /\ Answers(pkt).ok) => ok

InstanceOf(i, s) == i[3] = s[2] /\ EqCI(i[2], s[1])
=============================================================================
