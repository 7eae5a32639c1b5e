----------------------------- MODULE MCResolver -----------------------------
(* Resolver calls against an environment that chooses every packet, its      *)
(* arrival time, send and receive errors.  Two consecutive calls share the   *)
(* resolver, so late answers to the first one may reach the second.          *)
(* hist holds the events of the current call; script what is replayed on the *)
(* real code.                                                                *)
EXTENDS Client, TLC, Json, IOUtils
CONSTANTS MaxPkts, MaxCalls

(* tab holds the pool and its meaning, so that TLC computes them once. *)
VARIABLES tab, cfg, call, c, now, hist, script, net, pc
vars == <<tab, cfg, call, c, now, hist, script, net, pc>>

TO == 40
Gaps == {0, 15, 39}
Id == 12345
NameH == <<<<104>>, <<120>>>>
HostText == <<104, 46, 120>>
Hdr(flags, q, a) == EncHeader(Id, flags, q, a, 0, 0)
Q == EncQuestion(NameH, TA, 1)
Ptr12 == <<192, 12>>
RR(t, rd) == Ptr12 \o E16(t) \o <<0, 1, 0, 0, 0, 60>> \o E16(Len(rd)) \o rd
A(x) == RR(TA, <<10, 0, 0, x>>)
AAAA(x) == RR(TAAAA, [i \in 1..16 |-> x + i])
Kind(b, back, x) == [b |-> b, id |-> back, x |-> x]
MkPool == [ one    |-> Kind(Hdr(33152, 1, 1) \o Q \o A(1), 0, 0),
          two    |-> Kind(Hdr(32768, 1, 3) \o Q \o A(2) \o RR(TCNAME, Ptr12) \o AAAA(3), 0, 0),
          none   |-> Kind(Hdr(32768, 1, 1) \o Q \o RR(TTXT, <<1, 65>>), 0, 0),
          bad    |-> Kind(Hdr(32768, 1, 2) \o Q \o A(4) \o RR(TA, <<1, 2, 3>>), 0, 0),
          cut    |-> Kind(Hdr(32768, 1, 3) \o Q \o A(5) \o A(6), 0, 0),
          query  |-> Kind(Hdr(0, 1, 1) \o Q \o A(7), 0, 0),
          other  |-> Kind(Hdr(32768, 1, 1) \o Q \o A(8), 0, 256),
          late   |-> Kind(Hdr(32768, 1, 1) \o Q \o A(9), 1, 0),
          short  |-> Kind(<<48, 57>>, 0, 0) ]
(* The packet as it arrives: with the id of another query if it is late or foreign. *)
Arriving(k) == LET p == MkPool[k] IN IF p.id = 0 /\ p.x = 0 THEN p.b ELSE <<0, 1>> \o Slice(p.b, 2, Len(p.b))
MkAddrs == [k \in DOMAIN MkPool |-> RespAddrs(Id, Arriving(k))]

Addrs == tab.addrs
Pool == tab.pool
Kinds == DOMAIN tab.pool

Servers == {<< <<10, 0, 0, 1, 0, 53>> >>, << <<10, 0, 0, 1, 0, 53>>, <<10, 0, 0, 2, 0, 54>> >>}
Ncall == Len(script)

Init == /\ cfg \in {[srv |-> s, to |-> TO, dto |-> 0, tol |-> 0] : s \in Servers}
        /\ tab = [pool |-> MkPool, addrs |-> MkAddrs]
        /\ call = [o |-> "res", h |-> HostText]
        /\ c = CallInit(0) /\ now = 0 /\ hist = <<>> /\ script = <<>> /\ net = <<>> /\ pc = "io"

Send == /\ pc = "io" /\ MaySendRes(cfg, c, cfg.srv[c.k + 1])
        /\ \E os \in {0, 101} :
             /\ c' = OnSend(c, now, os)
             /\ hist' = Append(hist, [op |-> "send", to |-> cfg.srv[c.k + 1], os |-> os, t |-> now])
             /\ call' = IF os = 0 THEN call ELSE call @@ [sf |-> << <<c.k, os>> >>]
             /\ pc' = IF os # 0 THEN "ret" ELSE "io"
        /\ UNCHANGED <<tab, cfg, now, script, net>>
Arrive == /\ pc = "io" /\ MayRecvRes(cfg, c) /\ Len(net) < MaxPkts
          /\ \E k \in Kinds, g \in Gaps :
               /\ Pool[k].id <= Ncall
               /\ TimelyResRecv(cfg, c, now + g)
               /\ now' = now + g
               /\ c' = OnResRecv(c, now + g, Addrs[k])
               /\ hist' = Append(hist, [op |-> "recv", k |-> k, t |-> now + g])
               /\ net' = Append(net, Pool[k] @@ [at |-> now + g - c.start])
               /\ pc' = IF c'.must = "ok" THEN "ret" ELSE "io"
          /\ UNCHANGED <<tab, cfg, call, script>>
Fail == /\ pc = "io" /\ MayRecvRes(cfg, c) /\ Len(net) < MaxPkts
        /\ \E g \in {0, 15} :
             /\ now' = now + g
             /\ c' = OnRecvErr(c, 111)
             /\ hist' = Append(hist, [op |-> "rerr", t |-> now + g])
             /\ net' = Append(net, [at |-> now + g - c.start, err |-> 111])
        /\ pc' = "ret"
        /\ UNCHANGED <<tab, cfg, call, script>>
Silence == /\ pc = "io" /\ now' = c.last + TO /\ pc' = "ret"
           /\ TimeoutOfRes(cfg, c, now')
           /\ UNCHANGED <<tab, cfg, call, c, hist, script, net>>
Result == CASE c.must = "ok" -> [r |-> "ok", ips |-> c.ips]
            [] c.must = "err" -> [r |-> "err", ips |-> <<>>]
            [] OTHER -> [r |-> "timeout", ips |-> <<>>]
Ret == /\ pc = "ret" /\ Ncall < MaxCalls
       /\ script' = Append(script, call @@ [net |-> net])
       /\ hist' = Append(hist, Result @@ [op |-> "ret", t |-> now])
       /\ pc' = "done"
       /\ UNCHANGED <<tab, cfg, call, c, now, net>>
Again == /\ pc = "done" /\ Ncall < MaxCalls
         /\ call' = [o |-> "res", h |-> HostText] /\ c' = CallInit(now) /\ hist' = <<>> /\ net' = <<>> /\ pc' = "io"
         /\ UNCHANGED <<tab, cfg, now, script>>
Next == Send \/ Arrive \/ Fail \/ Silence \/ Ret \/ Again
Fairness == WF_vars(Send) /\ WF_vars(Silence) /\ WF_vars(Ret)

-----------------------------------------------------------------------------
(* The properties, stated on the history of a finished call.                 *)
Done == pc = "done"
RetEv == hist[Len(hist)]
Recvs == SelectSeq(hist, LAMBDA e : e.op = "recv")
Sends == SelectSeq(hist, LAMBDA e : e.op = "send")
Matching(e) == Addrs[e.k] # <<>>
(* C14 *)
OwnFirstAnswer == Done =>
  LET good == {i \in 1..Len(Recvs) : Matching(Recvs[i])}
  IN IF good = {} THEN RetEv.r # "ok"
     ELSE /\ RetEv.r = "ok" /\ good = {Len(Recvs)}
          /\ RetEv.ips = Addrs[Recvs[Len(Recvs)].k]
MeaningIsRight == {k \in Kinds : Addrs[k] # <<>>} = {"one", "two"} /\ Len(Addrs["two"]) = 2
(* C15 *)
QueriesFirst == \A i, j \in 1..Len(hist) : (hist[i].op = "send" /\ hist[j].op = "recv") => i < j
EveryServer == Done => /\ \A i \in 1..Len(Sends) : Sends[i].to = cfg.srv[i]
                       /\ \A i \in 1..(Len(Sends) - 1) : Sends[i].os = 0
                       /\ Len(Sends) = Len(cfg.srv) \/ Sends[Len(Sends)].os # 0
TimeoutIffSilent == Done =>
  LET prev == hist[Len(hist) - 1].t IN
    /\ (RetEv.r = "timeout") => RetEv.t = prev + TO
    /\ (RetEv.r # "timeout") => RetEv.t = prev
    /\ \A i \in 2..Len(hist) : hist[i].t - hist[i - 1].t <= TO
ErrorsReported == Done => ((RetEv.r = "err") = (\E i \in 1..Len(hist) : hist[i].op = "rerr" \/ (hist[i].op = "send" /\ hist[i].os # 0)))
Terminates == <>(pc = "done")


Script(m) == [k |-> "net", m |-> m, res |-> [srv |-> cfg.srv, mc |-> 0, setto |-> 1, to |-> TO], calls |-> script]
PrintScript == (IOEnv.GEN = "1" /\ Done /\ Ncall = MaxCalls) =>
  PrintT(<<"SCRIPT", ToJson(Script("sync"))>>)
Spec == Init /\ [][Next]_vars /\ Fairness
=============================================================================
