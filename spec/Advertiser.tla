----------------------------- MODULE Advertiser -----------------------------
(* The advertiser: registered records and the reply relation.               *)
(* A database is a sequence of [n, rec]; all records are IN with TTL 120.    *)
EXTENDS Encoder, Matching, Txt, Service

ReplyLimit == 1500
TTL120 == <<0, 120>>
ClassIN == 1

AddrRec(ip) == Rec(IF Len(ip) = 4 THEN "A" ELSE "AAAA", ip, <<>>, <<>>)
HostName(h) == <<h>> \o Local
(* Metadata of an "inst" operation: parsed strings, then flags. *)
RECURSIVE AddFlags(_, _, _)
AddFlags(m, fl, i) == IF i > Len(fl) THEN m ELSE AddFlags(TxtAddFlag(m, fl[i]), fl, i + 1)
NormOp(op) == IF op.o = "inst" /\ "fl" \notin DOMAIN op
              THEN [f \in DOMAIN op \cup {"fl"} |-> IF f = "fl" THEN <<>> ELSE op[f]] ELSE op
OpMeta(op) == AddFlags(TxtFrom(op.x), op.fl, 1)
RECURSIVE SeqOfSet(_)
SeqOfSet(x) == IF x = {} THEN <<>> ELSE LET e == CHOOSE e \in x : TRUE IN <<e>> \o SeqOfSet(x \ {e})
MetaStrings(m) == IF m = {} THEN <<<<>>>> ELSE SeqOfSet({EntryBytes(e) : e \in m})

OpInst(op) == <<op.i, op.s, op.t>>
InstRecords(i, host, port, m) ==
  LET full == InstanceName(i, Local)
      svc == ServiceName(<<i[2], i[3]>>, Local)
  IN << [n |-> full, rec |-> Rec("SRV", <<0, 0, port>>, <<host>>, <<>>)],
        [n |-> full, rec |-> Rec("TXT", <<>>, <<>>, MetaStrings(m))],
        [n |-> svc, rec |-> Rec("PTR", <<>>, <<full>>, <<>>)],
        [n |-> MetaService \o Local, rec |-> Rec("PTR", <<>>, <<svc>>, <<>>)] >>
AdvInit(h, ip) == << [n |-> HostName(h), rec |-> AddrRec(ip)] >>
AdvRegister(db, op) ==
  IF op.o = "name" THEN Append(db, [n |-> HostName(op.h), rec |-> AddrRec(op.ip)])
  ELSE db \o InstRecords(OpInst(op), op.host, op.port, OpMeta(op))
RECURSIVE AdvRegisterAll(_, _, _)
AdvRegisterAll(db, ops, i) == IF i > Len(ops) THEN db ELSE AdvRegisterAll(AdvRegister(db, ops[i]), ops, i + 1)

-----------------------------------------------------------------------------
(* Same data; the strings of a TXT record come in any order, and priority and *)
(* weight of an SRV record are the advertiser's business.                     *)
SameData(a, b) ==
  CASE a.k = "TXT" -> b.k = "TXT" /\ Len(a.x) = Len(b.x) /\ Range(a.x) = Range(b.x)
    [] a.k = "SRV" -> b.k = "SRV" /\ a.i[3] = b.i[3] /\ a.n = b.n
    [] OTHER -> a = b

Asks(q, r) == q.n = r.n /\ TypeMatches(q.t, TypeOf(r.rec.k)) /\ ClassMatches(q.c, ClassIN)
(* Positions of the records asked for by some question of qs. *)
Wanted(db, qs) == {i \in 1..Len(db) : \E j \in 1..Len(qs) : Asks(qs[j], db[i])}

(* "reply", "none" or "err": what to do with a packet. *)
AdvKind(db, pkt) ==
  IF Len(pkt) < HeaderLen THEN "err"
  ELSE IF HIsResponse(pkt) \/ HOpcode(pkt) # 0 \/ HRcode(pkt) # 0 THEN "none"
  ELSE LET q == ReadEntries(pkt, 0, HCount(pkt, 0), HeaderLen) IN
    IF ~q.ok THEN "err" ELSE IF Wanted(db, q.es) = {} THEN "none" ELSE "reply"
Questions(pkt) == ReadEntries(pkt, 0, HCount(pkt, 0), HeaderLen).es

RRSize(r) == Len(EncRR(r.n, ClassIN, TTL120, r.rec))
RECURSIVE SumSizes(_, _, _)
SumSizes(db, qs, is) == IF is = {} THEN 0 ELSE
  LET i == CHOOSE i \in is : TRUE
  IN RRSize(db[i]) * Cardinality({j \in 1..Len(qs) : Asks(qs[j], db[i])}) + SumSizes(db, qs, is \ {i})

IsRecord(buf, e, r) == e.n = r.n /\ e.t = TypeOf(r.rec.k) /\ SameData(r.rec, RecOf(buf, e))
RECURSIVE AnswersSize(_, _)
AnswersSize(ans, out) == IF ans = <<>> THEN 0 ELSE
  Len(EncRR(ans[1].n, ClassIN, TTL120, RecOf(out, ans[1]))) + AnswersSize(Tail(ans), out)
(* A truncated reply is one to which some wanted record cannot be added.     *)
AdvReply(db, pkt, out) ==
  LET qs == Questions(pkt)
      want == Wanted(db, qs)
      d == ReadMessage(out)
      ans == d.s[2]
      copies(a) == Cardinality({<<i, j>> \in want \X (1..Len(qs)) : Asks(qs[j], db[i]) /\ IsRecord(out, a, db[i])})
      same(a) == Cardinality({k \in 1..Len(ans) : ans[k].n = a.n /\ ans[k].t = a.t /\ RecOf(out, ans[k]) = RecOf(out, a)})
  IN /\ Len(out) <= ReplyLimit
     /\ d.ok
     /\ HId(out) = HId(pkt) /\ HIsResponse(out) /\ HAuthority(out) /\ HOpcode(out) = 0 /\ HRcode(out) = 0
     /\ \A k \in 1..Len(ans) : /\ ans[k].c = ClassIN /\ ans[k].ttl = TTL120
                               /\ copies(ans[k]) >= same(ans[k])
     /\ IF HTruncated(out)
        THEN /\ HeaderLen + SumSizes(db, qs, want) > ReplyLimit
             /\ \E i \in want : HeaderLen + AnswersSize(ans, out) + RRSize(db[i]) > ReplyLimit
        ELSE \A i \in want : \E k \in 1..Len(ans) : IsRecord(out, ans[k], db[i])

(* r: "none", "err" or "resp".  A packet to be ignored may also be refused  *)
(* if the whole of it does not decode.                                       *)
AdvOutcome(db, pkt, r, out) ==
  CASE AdvKind(db, pkt) = "reply" -> r = "resp" /\ AdvReply(db, pkt, out)
    [] AdvKind(db, pkt) = "err" -> r = "err"
    [] OTHER -> r = "none" \/ (r = "err" /\ ~ReadMessage(pkt).ok)

(* The reply of a reference advertiser: every wanted record once, if they fit. *)
RefReply(db, pkt) ==
  LET w == Wanted(db, Questions(pkt))
      es == [i \in 1..Cardinality(w) |->
               LET k == CHOOSE k \in w : Cardinality({j \in w : j <= k}) = i
               IN [s |-> 1, n |-> db[k].n, t |-> TypeOf(db[k].rec.k), c |-> ClassIN, ttl |-> TTL120, rec |-> db[k].rec]]
  IN EncWhole(E16(HId(pkt)) \o <<132, 0>> \o Zeros(8), es, FALSE)
=============================================================================
