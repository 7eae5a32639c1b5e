------------------------------ MODULE MCSystem -------------------------------
(* Advertisers and a client on a lossy network: every transmission reaches   *)
(* an advertiser and its reply comes back after one of the delays of Fates   *)
(* (none: lost; several: duplicated), so that replies overtake each other    *)
(* and may reach a later call.  PLAN selects the calls made one after the    *)
(* other on one client.                                                      *)
EXTENDS Advertiser, Client, TLC, Json, IOUtils
FatesQ == {<<>>, <<3>>, <<45>>, <<70, 7>>}
FatesT == {<<>>, <<3>>, <<20>>, <<45>>, <<99>>, <<130>>, <<70, 7>>}
LateQ == {<<>>, <<5>>, <<110>>, <<10, 60>>}
LateRes == {<<>>, <<5>>, <<45>>, <<10, 30>>}
NextQ == {<<>>, <<5>>}
NextT == {<<>>, <<5>>, <<45>>}
CONSTANTS Fates, LateFates, NextFates

VARIABLES tab, ci, c, now, flight, fates, arr, hist, pc
vars == <<tab, ci, c, now, flight, fates, arr, hist, pc>>

RTO == 40  DTO == 100
PLAN == IOEnv.PLAN
SA == <<95, 97>>  SB == <<95, 98>>
I1 == <<105>>  I2 == <<106>>  I3 == <<107>>
H1 == <<104, 49>>  H2 == <<104, 50>>  H3 == <<104, 51>>
Inst(i, s, t, port, x) == [o |-> "inst", i |-> i, s |-> s, t |-> t, host |-> <<H1>> \o Local, port |-> port, x |-> x, fl |-> <<>>]
Advs == <<
  [h |-> H1, ip |-> <<10, 0, 0, 1>>, from |-> <<10, 0, 0, 1, 20, 233>>,
   ops |-> <<Inst(I1, SA, 0, 80, <<<<107, 61, 118>>>>), Inst(I2, SB, 1, 81, <<>>),
             [o |-> "name", h |-> H3, ip |-> <<10, 0, 0, 3>>]>>],
  [h |-> H2, ip |-> <<254, 128, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2>>, from |-> <<10, 0, 0, 2, 20, 233>>,
   ops |-> <<Inst(I2, SA, 0, 82, <<>>), Inst(I3, SA, 0, 83, <<<<102>>>>)>>] >>
NA == Len(Advs)
Res(h) == [o |-> "res", n |-> <<h>> \o Local]
List == [o |-> "inst", s |-> SA, t |-> 0, brk |-> 0]
Load(i, s, t) == [o |-> "load", i |-> i, s |-> s, t |-> t]
Calls == CASE PLAN = "types" -> <<[o |-> "types", brk |-> 0]>>
           [] PLAN = "inst" -> <<List>>
           [] PLAN = "load" -> <<Load(I1, SA, 0)>>
           [] PLAN = "none" -> <<Load(I1, SB, 1)>>
           [] PLAN = "res" -> <<Res(H3)>>
           [] PLAN = "brk" -> <<[List EXCEPT !.brk = 1]>>
           [] PLAN = "res2" -> <<Res(H1), Res(H2)>>
           [] PLAN = "list2" -> <<[List EXCEPT !.brk = 1], List>>
           [] PLAN = "load2" -> <<Load(I2, SB, 1), Load(I2, SA, 0)>>
           [] PLAN = "mixed" -> <<[o |-> "types", brk |-> 1], Load(I3, SA, 0)>>
Call == Calls[ci]
IsRes == Call.o = "res"
Server == <<10, 0, 0, 9, 20, 233>>
Cfg == [srv |-> <<Server>>, to |-> RTO, dto |-> DTO, tol |-> 0]
Types(call) == CallTypes(call)

(* Per call and advertiser: the reply, if any, and what it means to each call. *)
Db(a) == AdvRegisterAll(AdvInit(Advs[a].h, Advs[a].ip), Advs[a].ops, 1)
Query(k) == EncQueryFor(k, CallName(Calls[k], Local), Types(Calls[k]), Calls[k].o = "res")
ReplyOf(k, a) == IF AdvKind(Db(a), Query(k)) = "reply" THEN RefReply(Db(a), Query(k)) ELSE <<>>
Meaning(k, a, j) ==
  LET r == ReplyOf(k, a) IN
  IF r = <<>> THEN <<>>
  ELSE IF Calls[j].o = "res" THEN RespAddrs(j, r) ELSE OwnedRecords(r, CallName(Calls[j], Local))
Tab == [has |-> [k \in 1..Len(Calls) |-> [a \in 1..NA |-> ReplyOf(k, a) # <<>>]],
        mean |-> [k \in 1..Len(Calls) |-> [a \in 1..NA |-> [j \in 1..Len(Calls) |-> Meaning(k, a, j)]]],
        db |-> [a \in 1..NA |-> Db(a)]]

Init == /\ tab = Tab
        /\ ci = 1 /\ c = CallInit(0) /\ now = 0 /\ flight = <<>> /\ fates = <<>> /\ arr = {} /\ hist = <<>> /\ pc = "send"

May(to) == IF IsRes THEN MaySendRes(Cfg, c, to) ELSE MaySendDisc(Cfg, c, to)
FateSet == IF Len(Calls) = 1 THEN Fates ELSE IF ci = 1 THEN (IF IsRes THEN LateRes ELSE LateFates) ELSE NextFates
RECURSIVE Copies(_, _, _)
Copies(f, a, i) == IF i > Len(f) THEN <<>> ELSE <<[at |-> now + f[i], k |-> ci, a |-> a]>> \o Copies(f, a, i + 1)
RECURSIVE AllCopies(_, _)
AllCopies(f, a) == IF a > NA THEN <<>>
                   ELSE (IF tab.has[ci][a] THEN Copies(f[a], a, 1) ELSE <<>>) \o AllCopies(f, a + 1)
Send == /\ pc = "send" /\ May(Server)
        /\ \E f \in [1..NA -> FateSet] :
             /\ \A a \in 1..NA : tab.has[ci][a] \/ f[a] = <<>>
             /\ fates' = Append(fates, f)
             /\ flight' = flight \o AllCopies(f, 1)
             /\ arr' = arr \cup {<<x.a, x.at>> : x \in Range(AllCopies(f, 1))}
        /\ c' = OnSend(c, now, 0)
        /\ pc' = "recv"
        /\ UNCHANGED <<tab, ci, now, hist>>
(* The next packet: the earliest, in order of sending. *)
First == CHOOSE i \in 1..Len(flight) : \A j \in 1..Len(flight) :
           flight[i].at < flight[j].at \/ (flight[i].at = flight[j].at /\ i <= j)
Due == IF IsRes THEN c.last + RTO ELSE Min(c.last + RTO, EndOf(Cfg, c))
Arrive ==
  /\ pc = "recv" /\ flight # <<>> /\ flight[First].at < Due
  /\ LET p == flight[First]
         t == IF p.at > now THEN p.at ELSE now
         m == tab.mean[p.k][p.a][ci]
     IN /\ now' = t
        /\ c' = IF IsRes THEN OnResRecv(c, t, m) ELSE OnDiscRecv(c, t, Call, m)
        /\ flight' = SubSeq(flight, 1, First - 1) \o SubSeq(flight, First + 1, Len(flight))
  /\ pc' = IF c'.must = "ok" THEN "ret" ELSE IF c'.pend # <<>> THEN "cb" ELSE "recv"
  /\ UNCHANGED <<tab, ci, fates, arr, hist>>
Callback == /\ pc = "cb"
            /\ LET stop == c.ncb + 1 = Call.brk IN
                 /\ hist' = Append(hist, c.pend[1])
                 /\ c' = OnCb(c, c.pend[1], stop)
                 /\ pc' = IF stop THEN "ret" ELSE IF c'.pend = <<>> THEN "recv" ELSE "cb"
            /\ UNCHANGED <<tab, ci, now, flight, fates, arr>>
Silence == /\ pc = "recv" /\ (flight = <<>> \/ flight[First].at >= Due) = TRUE
           /\ now' = Due
           /\ pc' = IF IsRes \/ Due = EndOf(Cfg, c) THEN "ret" ELSE "send"
           /\ UNCHANGED <<tab, ci, c, flight, fates, arr, hist>>
Again == /\ pc = "ret" /\ ci < Len(Calls)
         /\ ci' = ci + 1 /\ c' = CallInit(now) /\ arr' = {} /\ hist' = <<>> /\ pc' = "send"
         /\ UNCHANGED <<tab, now, flight, fates>>
Next == Send \/ Arrive \/ Callback \/ Silence \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Done == pc = "ret"
Insts(a) == {o \in Range(Advs[a].ops) : o.o = "inst"}
ValuesOf(a) == IF Call.o = "types" THEN {<<o.s, o.t>> : o \in Insts(a)}
               ELSE {OpInst(o) : o \in {o \in Insts(a) : o.s = Call.s /\ o.t = Call.t}}
Answered == {a \in 1..NA : \E x \in arr : x[1] = a /\ x[2] < (IF IsRes THEN c.start + RTO ELSE EndOf(Cfg, c))}
Addrs(a) == {tab.db[a][i].rec.i : i \in {i \in 1..Len(tab.db[a]) : tab.db[a][i].n = CallName(Call, Local) /\ tab.db[a][i].rec.k \in {"A", "AAAA"}}}
(* Nothing is reported that no advertiser registered; nothing twice. *)
Sound == Listed(Call) => /\ Range(hist) \subseteq UNION {ValuesOf(a) : a \in 1..NA}
                         /\ Cardinality(Range(hist)) = Len(hist)
(* Whatever an advertiser whose reply arrives in time has registered, is reported. *)
Complete == (Done /\ Listed(Call) /\ c.must # "ok") => \A a \in Answered : ValuesOf(a) \subseteq Range(hist)
Details == (Done /\ Call.o = "load") =>
  LET mine == {<<a, o>> \in UNION {{a} \X Insts(a) : a \in 1..NA} : OpInst(o) = <<Call.i, Call.s, Call.t>>}
  IN /\ c.srv # <<>> => \E x \in mine : c.srv[1].port = x[2].port /\ c.srv[1].host = x[2].host /\ c.txts = <<OpMeta(x[2])>>
     /\ (\E x \in mine : x[1] \in Answered) => c.srv # <<>>
     /\ mine = {} => c.srv = <<>> /\ c.txts = <<>>
Resolved == (Done /\ IsRes) => /\ c.ips # <<>> => \E a \in 1..NA : Range(c.ips) = Addrs(a) /\ Addrs(a) # {}
                               /\ (\E a \in Answered : Addrs(a) # {}) => c.ips # <<>>
(* Transmissions go on during the discovery time if nothing arrives. *)
Persistent == (Done /\ ~IsRes /\ ci = 1 /\ arr = {}) => c.k = 1 + (DTO - 1) \div RTO
Terminates == <>(Done /\ ci = Len(Calls))

Client0 == [k |-> "net", m |-> "sync", calls |-> [i \in 1..Len(Calls) |-> Calls[i] @@ [net |-> <<>>]], advs |-> Advs, fates |-> fates]
Script == IF Calls[1].o = "res"
          THEN Client0 @@ [res |-> [srv |-> <<Server>>, mc |-> 0, setto |-> 1, to |-> RTO]]
          ELSE Client0 @@ [disc |-> [srv |-> Server, dom |-> Local, mc |-> 0, setto |-> 1, rto |-> RTO, dto |-> DTO]]
PrintScript == (IOEnv.GEN = "1" /\ Done /\ ci = Len(Calls)) => PrintT(<<"SCRIPT", ToJson(Script)>>)
=============================================================================
