------------------------------- MODULE MCCalls -------------------------------
(* Two clients of the same kind (KIND: "res" or "inst"), each with a socket   *)
(* of its own that outlives its calls, in rounds of one call or of two calls  *)
(* side by side.  The environment delivers packets at any moment of a round,  *)
(* also to a client whose call has ended; a call ends by returning, by being  *)
(* dropped at any moment (an async call whose future is dropped, even before  *)
(* it has done anything), or by a panic of its callback.                      *)
(*   c, call, pc, hist   per client: its call and the events of that call     *)
(*   sock, sent          per client: packets waiting, all packets delivered   *)
(*   got                 per client: all packets received, over all calls     *)
EXTENDS Client, TLC, Json, IOUtils
CONSTANTS MaxPkts, MaxRounds

VARIABLES tab, c, call, pc, hist, sock, sent, got, now, start, round, script
vars == <<tab, c, call, pc, hist, sock, sent, got, now, start, round, script>>

KIND == IOEnv.KIND
TO == 40  DTO == 60
Server == <<10, 0, 0, 1, 20, 233>>
Cfg == [srv |-> <<Server>>, to |-> TO, dto |-> DTO, tol |-> 0]
Dom == <<<<100>>>>
SA == <<95, 97>>  I1 == <<105>>  I2 == <<106>>
TheCall == IF KIND = "res" THEN [o |-> "res", h |-> <<104, 46, 120>>] ELSE [o |-> "inst", s |-> SA, t |-> 0]
Owner == IF KIND = "res" THEN <<<<104>>, <<120>>>> ELSE CallName(TheCall, Dom)
Clients == {0, 1}

(* Packets: what they say, and for the resolver whose query they answer: this *)
(* call's (0), the call before (1), the one after in the same round (-1).     *)
Id == 12345
R(n, t, rd) == EncRRRaw(n, t, 1, <<0, 9>>, rd)
Response(id, rs) == EncHeader(id, 33792, 0, 1, 0, 0) \o rs
PtrTo(i) == EncRR(Owner, 1, <<0, 9>>, Rec("PTR", <<>>, <<InstanceName(<<i, SA, 0>>, Dom)>>, <<>>))
MkPool == IF KIND = "res"
          THEN [ one  |-> [b |-> Response(Id, R(Owner, TA, <<10, 0, 0, 1>>)), id |-> 0],
                 two  |-> [b |-> Response(Id, R(Owner, TA, <<10, 0, 0, 2>>)), id |-> 0],
                 late |-> [b |-> Response(Id, R(Owner, TA, <<10, 0, 0, 3>>)), id |-> 1],
                 next |-> [b |-> Response(Id, R(Owner, TA, <<10, 0, 0, 4>>)), id |-> 0 - 1] ]
          ELSE [ a    |-> [b |-> Response(Id, PtrTo(I1)), id |-> 0],
                 b    |-> [b |-> Response(Id, PtrTo(I2)), id |-> 0],
                 bad  |-> [b |-> Response(Id, R(Owner, TPTR, <<5>>)), id |-> 0] ]
Kinds == DOMAIN tab.pool
(* What packet k, delivered during call number d, means to call number n of the same client: *)
(* the ids of all queries differ.                                                            *)
Meant(p, n) == IF p.k \in Kinds /\ tab.pool[p.k].id = 0 /\ p.d = n THEN tab.mean[p.k] ELSE <<>>
Records(p) == tab.mean[p.k]

NoCall == CallInit(0)
Number(w) == Len(SelectSeq(script, LAMBDA x : x.w = w))
Init == /\ tab = [pool |-> MkPool, mean |-> [k \in DOMAIN MkPool |->
                    IF KIND = "res" THEN RespAddrs(Id, MkPool[k].b) ELSE OwnedRecords(MkPool[k].b, Owner)]]
        /\ c = [w \in Clients |-> NoCall] /\ call = [w \in Clients |-> TheCall] /\ pc = [w \in Clients |-> "idle"]
        /\ hist = [w \in Clients |-> <<>>] /\ sock = [w \in Clients |-> <<>>] /\ sent = [w \in Clients |-> <<>>]
        /\ got = [w \in Clients |-> <<>>]
        /\ now = 0 /\ start = 0 /\ round = 0 /\ script = <<>>
Ended == \A w \in Clients : pc[w] \in {"idle", "end"}
Active == {w \in Clients : pc[w] \notin {"idle", "end"}}
(* The calls of the current round in the order in which they are started. *)
Live == {w \in Clients : pc[w] # "idle"}
RECURSIVE InOrder(_)
InOrder(ws) == IF ws = {} THEN <<>> ELSE LET w == CHOOSE w \in ws : \A v \in ws : w <= v IN <<w>> \o InOrder(ws \ {w})

Begin == /\ Ended /\ Live = {} /\ round < MaxRounds
         /\ \E ws \in SUBSET Clients \ {{}}, brk \in IF KIND = "res" THEN {0} ELSE {0, 1} :
              /\ (round = 0 => 0 \in ws)
              /\ pc' = [w \in Clients |-> IF w \in ws THEN "io" ELSE "idle"]
              /\ c' = [w \in Clients |-> IF w \in ws THEN CallInit(now) ELSE NoCall]
              /\ call' = [w \in Clients |-> TheCall @@ (IF brk = 0 THEN <<>> ELSE IF w = 0 THEN [pan |-> brk] ELSE [brk |-> brk])
                                            @@ [w |-> w, net |-> <<>>]]
         /\ hist' = [w \in Clients |-> <<>>] /\ start' = now /\ round' = round + 1
         /\ UNCHANGED <<tab, sock, sent, got, now, script>>
Note(w, e) == hist' = [hist EXCEPT ![w] = Append(@, e)]

Waiting(w) == pc[w] = "io" /\ c[w].k > 0 /\ sock[w] = <<>> /\ Running(c[w])
Send(w) == /\ pc[w] = "io"
           /\ IF KIND = "res" THEN MaySendRes(Cfg, c[w], Server) /\ TimelyResSend(Cfg, c[w], now)
              ELSE MaySendDisc(Cfg, c[w], Server) /\ TimelyDiscSend(Cfg, c[w], now) /\ (c[w].k > 0 => now < EndOf(Cfg, c[w]))
           /\ c' = [c EXCEPT ![w] = OnSend(@, now, 0)]
           /\ Note(w, [op |-> "send", t |-> now])
           /\ UNCHANGED <<tab, call, pc, sock, sent, got, now, start, round, script>>
(* The environment sends a packet to a client: to one whose call has ended, too. *)
Deliver(w) == /\ w \in Live /\ Active # {} /\ Len(sent[0]) + Len(sent[1]) < MaxPkts
              /\ \A v \in Active : c[v].k > 0
              /\ now - start \in {0, 20}
              /\ \E k \in Kinds :
                   LET p == [k |-> k, d |-> Number(w) + 1] IN
                   /\ sock' = [sock EXCEPT ![w] = Append(@, p)]
                   /\ sent' = [sent EXCEPT ![w] = Append(@, p)]
                   /\ call' = [call EXCEPT ![w].net = Append(@, [at |-> now - start, b |-> tab.pool[k].b] @@
                                 (IF KIND = "res" THEN [id |-> tab.pool[k].id] ELSE <<>>))]
              /\ UNCHANGED <<tab, c, pc, hist, got, now, start, round, script>>
Recv(w) == /\ pc[w] = "io" /\ sock[w] # <<>>
           /\ IF KIND = "res" THEN MayRecvRes(Cfg, c[w]) ELSE MayRecvDisc(c[w])
           /\ LET p == Head(sock[w])
                  n == IF KIND = "res" THEN OnResRecv(c[w], now, Meant(p, Number(w) + 1)) ELSE OnListRecv(c[w], now, call[w], Records(p))
              IN /\ c' = [c EXCEPT ![w] = n]
                 /\ Note(w, [op |-> "recv", p |-> p, t |-> now])
                 /\ got' = [got EXCEPT ![w] = Append(@, p)]
                 /\ pc' = [pc EXCEPT ![w] = IF n.must = "ok" THEN "ret" ELSE IF n.pend # <<>> THEN "cb" ELSE "io"]
           /\ sock' = [sock EXCEPT ![w] = Tail(@)]
           /\ UNCHANGED <<tab, call, sent, now, start, round, script>>
Has2(r, f) == f \in DOMAIN r
Callback(w) == /\ pc[w] = "cb"
               /\ LET n == c[w].ncb + 1
                      pan == Has2(call[w], "pan") /\ call[w].pan = n
                      stop == pan \/ (Has2(call[w], "brk") /\ call[w].brk = n)
                  IN /\ c' = [c EXCEPT ![w] = OnCb(@, @.pend[1], stop)]
                     /\ Note(w, [op |-> "cb", v |-> c[w].pend[1], stop |-> stop, t |-> now])
                     /\ pc' = [pc EXCEPT ![w] = IF pan THEN "panic" ELSE IF stop THEN "ret" ELSE IF c'[w].pend = <<>> THEN "io" ELSE "cb"]
               /\ UNCHANGED <<tab, call, sock, sent, got, now, start, round, script>>
Deadline(w) == IF KIND = "res" THEN c[w].last + TO ELSE Min(c[w].last + TO, EndOf(Cfg, c[w]))
Due(w) == Waiting(w) /\ (IF KIND = "res" THEN TimeoutOfRes(Cfg, c[w], now) ELSE TimelyDiscEnd(Cfg, c[w], now))
Finish(w, r) == /\ Note(w, [op |-> "ret", r |-> r, t |-> now])
                /\ pc' = [pc EXCEPT ![w] = "end"]
Return(w) == /\ pc[w] \in {"ret", "panic"} \/ Due(w)
             /\ Finish(w, CASE pc[w] = "ret" -> "ok" [] pc[w] = "panic" -> "panic" [] KIND = "res" -> "timeout" [] OTHER -> "ok")
             /\ UNCHANGED <<tab, c, call, sock, sent, got, now, start, round, script>>
(* The future of an async call is dropped while it waits, or before it is polled. *)
Drop(w) == /\ Waiting(w) \/ (pc[w] = "io" /\ c[w].k = 0)
           /\ now < Deadline(w) /\ now - start \in {0, 20}
           /\ ~Has2(call[w], "pan")
           /\ call' = [call EXCEPT ![w] = @ @@ [stop |-> IF c[w].k = 0 THEN 0 - 1 ELSE now - start]]
           /\ Finish(w, "dropped")
           /\ UNCHANGED <<tab, c, sock, sent, got, now, start, round, script>>
Settled(w) == pc[w] \in {"idle", "end"} \/ Waiting(w)
(* Time passes while everybody waits: a step, or up to the next deadline. *)
Tick == /\ Active # {} /\ \A w \in Clients : Settled(w)
        /\ \A w \in Active : now < Deadline(w)
        /\ \E t \in {now + 20} \cup {Deadline(w) : w \in Active} :
             /\ \A w \in Active : t <= Deadline(w)
             /\ now' = t
        /\ UNCHANGED <<tab, c, call, pc, hist, sock, sent, got, start, round, script>>
Close == /\ Ended /\ Live # {}
         /\ LET q == InOrder(Live) IN
              script' = script \o [i \in 1..Len(q) |-> call[q[i]] @@ [par |-> IF i < Len(q) THEN 1 ELSE 0]]
         /\ pc' = [w \in Clients |-> "idle"]
         /\ UNCHANGED <<tab, c, call, hist, sock, sent, got, now, start, round>>
Next == Begin \/ Tick \/ Close \/ \E w \in Clients : Send(w) \/ Deliver(w) \/ Recv(w) \/ Callback(w) \/ Return(w) \/ Drop(w)
Fairness == WF_vars(Tick) /\ WF_vars(Close) /\ \A w \in Clients : WF_vars(Send(w) \/ Recv(w) \/ Callback(w) \/ Return(w))
Spec == Init /\ [][Next]_vars /\ Fairness

-----------------------------------------------------------------------------
(* The property, stated on the events of one finished call. *)
Final(w) == pc[w] = "end"
Last(w) == hist[w][Len(hist[w])]
Only(w, op) == SelectSeq(hist[w], LAMBDA e : e.op = op)
(* A resolver call ends with what the first answer to its own query says, whoever else received or abandoned what. *)
AnswersOfThisCall(w) == SelectSeq(Only(w, "recv"), LAMBDA e : tab.pool[e.p.k].id = 0 /\ e.p.d = Number(w) + 1)
OwnResult == \A w \in Clients : (KIND = "res" /\ Final(w)) =>
   IF AnswersOfThisCall(w) = <<>> THEN Last(w).r \in {"timeout", "dropped"}
   ELSE Last(w).r = "ok" /\ c[w].ips = tab.mean[AnswersOfThisCall(w)[1].p.k] /\ c[w].ips # <<>> /\ Len(AnswersOfThisCall(w)) = 1
(* A discovery call reports what it received itself, each value once, until it is stopped. *)
ValuesOf(k) == CASE k = "a" -> <<<<I1, SA, 0>>>> [] k = "b" -> <<<<I2, SA, 0>>>> [] OTHER -> <<>>
RECURSIVE Distinct(_, _)
Distinct(q, seen) == IF q = <<>> THEN <<>> ELSE IF Head(q) \in seen THEN Distinct(Tail(q), seen)
                     ELSE <<Head(q)>> \o Distinct(Tail(q), seen \cup {Head(q)})
OwnValues == \A w \in Clients : (KIND # "res" /\ Final(w)) =>
   LET rs == Only(w, "recv")
       d == Distinct(Flatten([i \in 1..Len(rs) |-> ValuesOf(rs[i].p.k)]), {})
       cbs == Only(w, "cb")
   IN [i \in 1..Len(cbs) |-> cbs[i].v] = d
(* Every packet reaches the client it was sent to, once and in order. *)
NoMixUp == \A w \in Clients : got[w] \o sock[w] = sent[w]
(* Each call begins with its query, waits no longer than its own limits, whatever the other one does. *)
OwnTime == \A w \in Clients : hist[w] # <<>> =>
   /\ hist[w][1].op = "send" \/ (Last(w).op = "ret" /\ Last(w).r = "dropped" /\ Len(hist[w]) = 1)
   /\ hist[w][1].t = start
   /\ \A i \in 2..Len(hist[w]) : hist[w][i].t - hist[w][i - 1].t <= TO
   /\ KIND # "res" => Last(w).t <= start + DTO
   /\ Final(w) => CASE Last(w).r = "timeout" -> Last(w).t = c[w].last + TO
                    [] Last(w).r = "ok" /\ KIND # "res" /\ c[w].must = "run" -> Last(w).t = start + DTO
                    [] OTHER -> TRUE
(* A step of one client leaves the other as it is. *)
Isolation == [][\A w \in Clients : (c'[w] # c[w] /\ round' = round) => /\ hist'[w] # hist[w]
                                                                       /\ \A v \in Clients \ {w} : c'[v] = c[v] /\ hist'[v] = hist[v]]_vars
RoundsEnd == []<>Ended

Sess == [k |-> "net", m |-> "async", twin |-> 1, calls |-> script] @@
        (IF KIND = "res" THEN [res |-> [srv |-> <<Server>>, mc |-> 0, setto |-> 1, to |-> TO]]
         ELSE [disc |-> [srv |-> Server, dom |-> Dom, mc |-> 0, setto |-> 1, rto |-> TO, dto |-> DTO]])
PrintScript == (IOEnv.GEN = "1" /\ round = MaxRounds /\ Live = {}) => PrintT(<<"SCRIPT", ToJson(Sess)>>)
=============================================================================
