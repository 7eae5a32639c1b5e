----------------------------- MODULE MCDiscover -----------------------------
(* A discovery call (types, inst or load; KIND) against an environment that  *)
(* chooses packets, arrival times, errors, and when the callback stops.      *)
(* Two consecutive calls may share the discoverer.                           *)
EXTENDS Client, TLC, Json, IOUtils
CONSTANTS MaxPkts, MaxCalls,
          Takes  \* how long a callback takes

VARIABLES tab, cfg, call, c, now, hist, script, net, pc
vars == <<tab, cfg, call, c, now, hist, script, net, pc>>

RTO == 40  DTO == 100
KIND == IOEnv.KIND
Server == <<10, 0, 0, 1, 20, 233>>
Dom == <<<<100>>>>
SA == <<95, 97>>  SB == <<95, 98>>  I1 == <<105>>  I2 == <<106>>
TheCall == CASE KIND = "types" -> [o |-> "types"]
             [] KIND = "inst" -> [o |-> "inst", s |-> SA, t |-> 0]
             [] OTHER -> [o |-> "load", i |-> I1, s |-> SA, t |-> 0]
Owner == CallName(TheCall, Dom)

Hdr(flags, a) == EncHeader(7, flags, 0, a, 0, 0)
R(n, r) == EncRR(n, 1, <<0, 9>>, r)
Ptr(n, tgt) == R(n, Rec("PTR", <<>>, <<tgt>>, <<>>))
Srv(n, port, host) == R(n, Rec("SRV", <<1, 2, port>>, <<host>>, <<>>))
Text1(n, x) == R(n, Rec("TXT", <<>>, <<>>, <<x>>))
BadPtr(n) == EncRRRaw(n, TPTR, 1, <<0, 9>>, <<5>>)
Response(rs, n) == Hdr(33792, n) \o rs
(* Targets: two of the wanted kind, one of another kind. *)
T1 == IF KIND = "types" THEN ServiceName(<<SA, 0>>, Dom) ELSE InstanceName(<<I1, SA, 0>>, Dom)
T2 == IF KIND = "types" THEN ServiceName(<<SB, 1>>, Dom) ELSE InstanceName(<<I2, SA, 0>>, Dom)
T3 == IF KIND = "types" THEN <<SA>> \o Dom ELSE InstanceName(<<I2, SB, 0>>, Dom)
Host == <<<<104>>, <<100>>>>
ListPool ==
  [ a     |-> Response(Ptr(Owner, T1), 1),
    b     |-> Response(Ptr(Owner, T2), 1),
    ab    |-> Response(Ptr(Owner, T1) \o Ptr(Owner, T2) \o Ptr(Owner, T1), 3),
    alien |-> Response(Ptr(Dom, T1) \o Ptr(Owner, T3), 2),
    query |-> Hdr(0, 1) \o Ptr(Owner, T1),
    badb  |-> Response(BadPtr(Owner) \o Ptr(Owner, T2), 2),
    cuta  |-> Response(Ptr(Owner, T1) \o <<63>>, 2) ]
LoadPool ==
  [ srv   |-> Response(Srv(Owner, 80, Host), 1),
    srv2  |-> Response(Srv(Owner, 81, Dom), 1),
    txt   |-> Response(Text1(Owner, <<107, 61, 118>>), 1),
    both  |-> Response(Text1(Owner, <<102>>) \o Srv(Owner, 82, Host), 2),
    alien |-> Response(Srv(InstanceName(<<I2, SA, 0>>, Dom), 9, Host) \o Text1(InstanceName(<<I2, SA, 0>>, Dom), <<120>>), 2),
    query |-> Hdr(0, 1) \o Srv(Owner, 83, Host),
    bad   |-> Response(EncRRRaw(Owner, TSRV, 1, <<0, 9>>, <<0, 1, 2>>), 1) ]
MkPool == IF KIND = "load" THEN LoadPool ELSE ListPool
Kinds == DOMAIN tab.pool
Gaps == {0, 15, 39}

Init == /\ tab = [pool |-> MkPool, recs |-> [k \in DOMAIN MkPool |-> OwnedRecords(MkPool[k], Owner)]]
        /\ cfg = [srv |-> <<Server>>, to |-> RTO, dto |-> DTO, tol |-> 0]
        /\ call \in {TheCall @@ [brk |-> b] : b \in IF KIND = "load" THEN {0} ELSE {0, 1, 2}}
        /\ c = CallInit(0) /\ now = 0 /\ hist = <<>> /\ script = <<>> /\ net = <<>> /\ pc = "send"

Times(e) == IF e.op = "cb" THEN e.t + e.d ELSE e.t
Is(op) == SelectSeq(hist, LAMBDA e : e.op = op)
Event(e) == hist' = Append(hist, e)
Send == /\ pc = "send" /\ MaySendDisc(cfg, c, Server) /\ TimelyDiscSend(cfg, c, now)
        /\ \E os \in IF Len(net) = 0 THEN {0, 101} ELSE {0} :
             /\ c' = OnSend(c, now, os)
             /\ Event([op |-> "send", t |-> now, os |-> os])
             /\ call' = IF os = 0 THEN call ELSE call @@ [sf |-> << <<c.k, os>> >>]
             /\ pc' = IF os = 0 THEN "recv" ELSE "ret"
        /\ UNCHANGED <<tab, cfg, now, script, net>>
Arrive == /\ pc = "recv" /\ MayRecvDisc(c) /\ Len(net) < MaxPkts
          /\ \E k \in Kinds, g \in Gaps :
               /\ TimelyDiscRecv(cfg, c, now + g)
               /\ now + g < EndOf(cfg, c)
               /\ now' = now + g
               /\ c' = OnDiscRecv(c, now + g, call, tab.recs[k])
               /\ Event([op |-> "recv", k |-> k, t |-> now + g])
               /\ net' = Append(net, [b |-> tab.pool[k], at |-> now + g - c.start])
               /\ pc' = IF c'.must = "ok" THEN "ret" ELSE IF c'.pend # <<>> THEN "cb" ELSE "recv"
          /\ UNCHANGED <<tab, cfg, call, script>>
Callback == /\ pc = "cb"
            /\ \E d \in Takes : LET stop == c.ncb + 1 = call.brk IN
                 /\ c' = Took(OnCb(c, c.pend[1], stop), now + d)
                 /\ now' = now + d
                 /\ Event([op |-> "cb", v |-> c.pend[1], t |-> now, stop |-> stop, d |-> d])
                 /\ pc' = IF stop THEN "ret" ELSE IF c'.pend = <<>> THEN "recv" ELSE "cb"
            /\ UNCHANGED <<tab, cfg, call, script, net>>
Fail == /\ pc = "recv" /\ Len(net) < MaxPkts /\ now < EndOf(cfg, c)
        /\ c' = OnRecvErr(c, 111)
        /\ Event([op |-> "rerr", t |-> now])
        /\ net' = Append(net, [at |-> now - c.start, err |-> 111])
        /\ pc' = "ret"
        /\ UNCHANGED <<tab, cfg, call, now, script>>
(* Nothing arrives: retransmission or the end, whichever comes first. *)
Silence == /\ pc = "recv"
           /\ now' = Max(now, Min(c.last + RTO, EndOf(cfg, c)))
           /\ pc' = IF now' >= EndOf(cfg, c) THEN "ret" ELSE "send"
           /\ UNCHANGED <<tab, cfg, call, c, hist, script, net>>
Result == CASE c.must = "err" -> "err"
            [] call.o = "load" /\ c.srv = <<>> -> "timeout"
            [] OTHER -> "ok"
Ret == /\ pc = "ret" /\ Len(script) < MaxCalls
       /\ c.must # "run" \/ TimelyDiscEnd(cfg, c, now)
       /\ script' = Append(script, call @@ [net |-> net, cbd |-> [i \in 1..Len(Is("cb")) |-> Is("cb")[i].d]])
       /\ Event([op |-> "ret", t |-> now, r |-> Result])
       /\ pc' = "done"
       /\ UNCHANGED <<tab, cfg, call, c, now, net>>
Again == /\ pc = "done" /\ Len(script) < MaxCalls
         /\ call' = TheCall @@ [brk |-> 0] /\ c' = CallInit(now) /\ hist' = <<>> /\ net' = <<>> /\ pc' = "send"
         /\ UNCHANGED <<tab, cfg, now, script>>
Next == Send \/ Arrive \/ Callback \/ Fail \/ Silence \/ Ret \/ Again
Fairness == WF_vars(Send) /\ WF_vars(Callback) /\ WF_vars(Silence) /\ WF_vars(Ret)
Spec == Init /\ [][Next]_vars /\ Fairness

-----------------------------------------------------------------------------
(* The properties, stated on the history of a finished call. *)
Done == pc = "done"
RetEv == hist[Len(hist)]
Stopped == \E i \in 1..Len(hist) : hist[i].op = "cb" /\ hist[i].stop
(* All values named by owned PTR answers received so far, in order. *)
RECURSIVE Named(_, _)
Named(rs, i) == IF i > Len(rs) THEN <<>>
                ELSE Flatten([j \in 1..Len(tab.recs[rs[i].k]) |-> TargetValues(call, tab.recs[rs[i].k][j].n[1])]) \o Named(rs, i + 1)
RECURSIVE Distinct(_, _)
Distinct(q, seen) == IF q = <<>> THEN <<>> ELSE IF Head(q) \in seen THEN Distinct(Tail(q), seen)
                     ELSE <<Head(q)>> \o Distinct(Tail(q), seen \cup {Head(q)})
(* The packets mean what they were made for. *)
Targets(k) == Flatten([j \in 1..Len(tab.recs[k]) |-> IF tab.recs[k][j].k = "PTR" THEN TargetValues(call, tab.recs[k][j].n[1]) ELSE <<>>])
V1 == IF KIND = "types" THEN <<SA, 0>> ELSE <<I1, SA, 0>>
V2 == IF KIND = "types" THEN <<SB, 1>> ELSE <<I2, SA, 0>>
MeaningIsRight ==
  IF KIND = "load" THEN [k \in Kinds |-> [j \in 1..Len(tab.recs[k]) |-> tab.recs[k][j].k]] =
       [srv |-> <<"SRV">>, srv2 |-> <<"SRV">>, txt |-> <<"TXT">>, both |-> <<"TXT", "SRV">>, alien |-> <<>>, query |-> <<>>, bad |-> <<>>]
  ELSE [k \in Kinds |-> Targets(k)] =
       [a |-> <<V1>>, b |-> <<V2>>, ab |-> <<V1, V2, V1>>, alien |-> <<>>, query |-> <<>>, badb |-> <<V2>>, cuta |-> <<V1>>]
(* C16 *)
OnceInOrder == (Done /\ Listed(call)) =>
  LET d == Distinct(Named(Is("recv"), 1), {})
      n == IF call.brk \in 1..Len(d) THEN call.brk ELSE Len(d)
      cbs == Is("cb")
  IN [i \in 1..Len(cbs) |-> cbs[i].v] = SubSeq(d, 1, n)
StopsAtOnce == (Done /\ Stopped) => hist[Len(hist) - 1].op = "cb" /\ hist[Len(hist) - 1].stop /\ RetEv.r = "ok" /\ RetEv.t = Times(hist[Len(hist) - 1])
(* C17 *)
(* Silence counts from the last packet or transmission, and from when the callback was done with it. *)
RetransmitOnSilence == \A i \in 2..Len(hist) :
  CASE hist[i].op = "send" -> hist[i].t = Times(hist[i - 1]) + RTO /\ hist[i].t < c.start + DTO
    [] hist[i].op = "recv" -> hist[i].t < Times(hist[i - 1]) + RTO /\ hist[i].t < c.start + DTO
    [] OTHER -> TRUE
QueryFirst == hist # <<>> => hist[1].op = "send" /\ hist[1].t = c.start
(* The limit is overrun by a slow callback only. *)
TimeLimit == Done => /\ RetEv.t <= c.start + DTO \/ (hist[Len(hist) - 1].op = "cb" /\ RetEv.t = Times(hist[Len(hist) - 1]))
                     /\ (RetEv.t < c.start + DTO) => Stopped \/ RetEv.r = "err" \/ (call.o = "load" /\ c.must = "ok")
                     /\ (RetEv.r = "err") = (\E i \in 1..Len(hist) : hist[i].op = "rerr" \/ (hist[i].op = "send" /\ hist[i].os # 0))
(* C18 *)
Received == Flatten([i \in 1..Len(Is("recv")) |-> tab.recs[Is("recv")[i].k]])
OwnDetails == (Done /\ call.o = "load" /\ RetEv.r # "err") =>
  LET srvs == SelectSeq(Received, LAMBDA r : r.k = "SRV")
      txts == SelectSeq(Received, LAMBDA r : r.k = "TXT")
  IN /\ (RetEv.r = "ok") = (srvs # <<>>)
     /\ srvs # <<>> => c.srv[1].host = srvs[1].n[1] /\ c.srv[1].port = srvs[1].i[3]
     /\ c.txts = (IF txts = <<>> THEN <<>> ELSE <<TxtFrom(txts[1].x)>>)
     /\ (RetEv.t < c.start + DTO) => srvs # <<>> /\ txts # <<>>
Terminates == <>(pc = "done")

Script == [k |-> "net", m |-> "sync", disc |-> [srv |-> Server, dom |-> Dom, mc |-> 0, setto |-> 1, rto |-> RTO, dto |-> DTO], calls |-> script]
PrintScript == (IOEnv.GEN = "1" /\ Done /\ Len(script) = MaxCalls) => PrintT(<<"SCRIPT", ToJson(Script)>>)
=============================================================================
