-------------------------------- MODULE Client --------------------------------
(* The clients: resolver calls ("res") and discovery calls ("types", "inst", *)
(* "load") as state machines over the events of one call:                    *)
(*   send  to one server, os # 0 if the send fails                            *)
(*   recv  of a packet, given by its meaning for the call                     *)
(*   rerr  a failing receive (not a timeout)                                  *)
(*   cb    callback invocation, returning whether to stop                     *)
(*   ret   the end of the call                                                *)
(* Times are milliseconds; a configuration holds srv (servers in order), to   *)
(* (receive timeout or retransmit timeout), dto (discovery timeout) and tol   *)
(* (by how much the implementation may be late).                              *)
EXTENDS Wire, Service, Txt

-----------------------------------------------------------------------------
(* What a packet means to a call. *)

(* The answers of a response, up to the first that does not decode; ok: all do. *)
Answers(pkt) ==
  IF Len(pkt) < HeaderLen \/ ~HIsResponse(pkt) THEN [ok |-> FALSE, es |-> <<>>]
  ELSE LET q == ReadEntries(pkt, 0, HCount(pkt, 0), HeaderLen) IN
    IF ~q.ok THEN [ok |-> FALSE, es |-> <<>>] ELSE ReadEntries(pkt, 1, HCount(pkt, 1), q.p)

RECURSIVE AddrsFrom(_, _, _)
AddrsFrom(pkt, es, i) ==
  IF i > Len(es) THEN <<>>
  ELSE (IF es[i].t \in {TA, TAAAA} THEN <<RecOf(pkt, es[i]).i>> ELSE <<>>) \o AddrsFrom(pkt, es, i + 1)
(* Addresses a packet yields for the query with the given id. *)
RespAddrs(id, pkt) ==
  LET a == Answers(pkt)
  IN IF ~a.ok \/ HId(pkt) # id \/ (\E i \in 1..Len(a.es) : RecOf(pkt, a.es[i]).k = "err") THEN <<>>
     ELSE AddrsFrom(pkt, a.es, 1)

(* Records of the queried name in a response, in order. *)
RECURSIVE OwnedFrom(_, _, _, _)
OwnedFrom(pkt, es, name, i) ==
  IF i > Len(es) THEN <<>>
  ELSE (IF NameEqCI(es[i].n, name) /\ RecOf(pkt, es[i]).k \notin {"err", "none"} THEN <<RecOf(pkt, es[i])>> ELSE <<>>)
       \o OwnedFrom(pkt, es, name, i + 1)
OwnedRecords(pkt, name) == OwnedFrom(pkt, Answers(pkt).es, name, 1)

(* Values a PTR target stands for in a discovery call: none or one. *)
TargetValues(call, n) ==
  IF call.o = "types" THEN IF PtrIsService(n) THEN <<PtrService(n)>> ELSE <<>>
  ELSE IF PtrIsInstance(n) /\ EqCI(n[2], call.s) /\ PtrInstance(n)[3] = call.t THEN <<PtrInstance(n)>> ELSE <<>>
(* The distinct new values of records, in order of first appearance. *)
RECURSIVE NewValues(_, _, _, _)
NewValues(call, recs, seen, i) ==
  IF i > Len(recs) THEN <<>>
  ELSE LET v == IF recs[i].k = "PTR" THEN TargetValues(call, recs[i].n[1]) ELSE <<>>
       IN IF v = <<>> \/ v[1] \in seen THEN NewValues(call, recs, seen, i + 1)
          ELSE v \o NewValues(call, recs, seen \cup {v[1]}, i + 1)
Listed(call) == call.o \in {"types", "inst"}

(* Queried names and types *)
CallName(call, dom) ==
  CASE call.o = "types" -> MetaService \o dom
    [] call.o = "inst" -> ServiceName(<<call.s, call.t>>, dom)
    [] call.o = "load" -> InstanceName(<<call.i, call.s, call.t>>, dom)
    [] call.o = "res" -> IF "h" \in DOMAIN call THEN TextParts(call.h) ELSE call.n
CallTypes(call) == CASE call.o = "res" -> {TA, TAAAA} [] call.o = "load" -> {TSRV, TTXT} [] OTHER -> {TPTR}
(* A query has to fit into one packet. *)
QueryLimit == 1500
RECURSIVE WireLen(_)
WireLen(n) == IF n = <<>> THEN 1 ELSE 1 + Len(n[1]) + WireLen(Tail(n))
QueryFits(name, types) == HeaderLen + Cardinality(types) * (WireLen(name) + 4) <= QueryLimit
(* A query for exactly the given name and types. *)
IsQuery(pkt, name, types, rd) ==
  LET d == ReadMessage(pkt) IN
    /\ d.ok
    /\ ~HIsResponse(pkt) /\ HOpcode(pkt) = 0 /\ HRcode(pkt) = 0 /\ ~HTruncated(pkt)
    /\ rd => HRecDesired(pkt)
    /\ Len(d.s[1]) = Cardinality(types) /\ {d.s[1][i].t : i \in 1..Len(d.s[1])} = types
    /\ \A i \in 1..Len(d.s[1]) : d.s[1][i].n = name /\ d.s[1][i].c = 1
    /\ d.s[2] = <<>> /\ d.s[3] = <<>> /\ d.s[4] = <<>>
EncQueryFor(id, name, types, rd) ==
  LET ts == {t \in {TA, TPTR, TTXT, TAAAA, TSRV} : t \in types}
      n == Cardinality(ts)
      nth(k) == CHOOSE t \in ts : Cardinality({u \in ts : u <= t}) = k
  IN EncHeader(id, IF rd THEN 256 ELSE 0, n, 0, 0, 0) \o Flatten([k \in 1..n |-> EncQuestion(name, nth(k), 1)])

-----------------------------------------------------------------------------
(* The state of a call.                                                      *)
(*   must    "run", or how the call has to end: "ok", "err" (os)              *)
(*   k       transmissions so far; start: begin of the call; from: the last   *)
(*           transmission or packet; last: when the call went on after it     *)
(*   pend    callbacks due; seen, ncb: reported values and their number       *)
(*   srv     the first SRV record (or <<>>); txts: metadata of the first TXT  *)
(*   ips     result of a resolver call                                        *)
CallInit(t) == [must |-> "run", os |-> 0, k |-> 0, start |-> t, from |-> t, last |-> t, pend |-> <<>>, seen |-> {}, ncb |-> 0,
                srv |-> <<>>, txts |-> <<>>, ips |-> <<>>]

OnSend(c, t, os) == [c EXCEPT !.k = @ + 1, !.from = t, !.last = t, !.must = IF os # 0 THEN "err" ELSE @, !.os = os]
OnRecvErr(c, os) == [c EXCEPT !.must = "err", !.os = os]
OnResRecv(c, t, addrs) == [c EXCEPT !.from = t, !.last = t, !.ips = addrs, !.must = IF addrs # <<>> THEN "ok" ELSE @]
OnListRecv(c, t, call, recs) == [c EXCEPT !.from = t, !.last = t, !.pend = NewValues(call, recs, c.seen, 1)]
OnCb(c, v, stop) == [c EXCEPT !.seen = @ \cup {v}, !.ncb = @ + 1,
                              !.pend = IF stop THEN <<>> ELSE Tail(@), !.must = IF stop THEN "ok" ELSE @]
(* The callback or the operating system took its time. *)
Took(c, t) == [c EXCEPT !.last = t]
RECURSIVE LoadFold(_, _, _)
LoadFold(c, recs, i) ==
  IF i > Len(recs) \/ c.must = "ok" THEN c
  ELSE LET r == recs[i]
           d == CASE r.k = "SRV" /\ c.srv = <<>> -> [c EXCEPT !.srv = <<[host |-> r.n[1], port |-> r.i[3]]>>]
                  [] r.k = "TXT" /\ c.txts = <<>> -> [c EXCEPT !.txts = <<TxtFrom(r.x)>>]
                  [] OTHER -> c
       IN LoadFold([d EXCEPT !.must = IF d.srv # <<>> /\ d.txts # <<>> THEN "ok" ELSE @], recs, i + 1)
OnLoadRecv(c, t, recs) == LoadFold([c EXCEPT !.from = t, !.last = t], recs, 1)
OnDiscRecv(c, t, call, recs) == IF Listed(call) THEN OnListRecv(c, t, call, recs) ELSE OnLoadRecv(c, t, recs)

(* Order of events (time apart). *)
Running(c) == c.must = "run" /\ c.pend = <<>>
MaySendRes(cfg, c, to) == Running(c) /\ c.k < Len(cfg.srv) /\ to = cfg.srv[c.k + 1]
MayRecvRes(cfg, c) == Running(c) /\ c.k = Len(cfg.srv)
MaySendDisc(cfg, c, to) == Running(c) /\ to = cfg.srv[1]
MayRecvDisc(c) == Running(c) /\ c.k > 0

(* Times. *)
Within(t, due, tol) == t >= due /\ t <= due + tol
EndOf(cfg, c) == c.start + cfg.dto
TimelyResSend(cfg, c, t) == t <= c.last + cfg.tol
TimelyResRecv(cfg, c, t) == t <= c.last + cfg.to + cfg.tol
TimeoutOfRes(cfg, c, t) == c.k = Len(cfg.srv) /\ Within(t, c.last + cfg.to, cfg.tol)
TimelyDiscSend(cfg, c, t) ==
  IF c.k = 0 THEN t <= c.start + cfg.tol
  ELSE /\ t >= c.from + cfg.to /\ t <= c.last + cfg.to + cfg.tol
       /\ c.from + cfg.to <= EndOf(cfg, c) /\ c.last <= EndOf(cfg, c) + cfg.tol
(* Nothing is received after the end, however long the callback took. *)
TimelyDiscRecv(cfg, c, t) == t <= Min(c.last + cfg.to, EndOf(cfg, c)) + cfg.tol
(* The call may end without being told to at time t only: at the limit, or at once if that has passed meanwhile. *)
TimelyDiscEnd(cfg, c, t) == c.k > 0 /\ Within(t, IF c.from = c.last THEN EndOf(cfg, c) ELSE Max(EndOf(cfg, c), c.last), cfg.tol)
=============================================================================
