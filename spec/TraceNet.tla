------------------------------ MODULE TraceNet ------------------------------
(* Conformance of resolver and discoverer calls (sessions of kind "net").   *)
(* PROP selects the obligations:                                            *)
(*   C14 result of resolver calls      C15 their queries, timeouts, errors  *)
(*   C16 callbacks                     C17 transmissions and time limit     *)
(*   C18 loaded details                C21 end to end with advertisers      *)
(*   C27 what the error for a host name that cannot be parsed says         *)
(*   C23 the client's obligations together, in sessions of several clients  *)
(*   ALL likewise                                                           *)
EXTENDS Advertiser, Client, TraceBase

VARIABLES s, l, st

P(p) == PROP = p \/ (PROP \in {"ALL", "C23"} /\ p \notin {"C21", "C27"})
S == T[s]
Call == S.calls[st.ci]
Tol == IF Has(S, "us") THEN IF S.m = "async" THEN 5000 ELSE 1000 ELSE IF S.m = "async" THEN 5 ELSE 0
McAddr(mc) == IF mc = 4 THEN <<224, 0, 0, 251, 20, 233>>
              ELSE <<255, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 251, 20, 233>>
IsMulticast(a) == IF Len(a) = 6 THEN a[1] \in 224..239 ELSE a[1] = 255
ResSrv == IF S.res.mc # 0 THEN <<McAddr(S.res.mc)>> ELSE S.res.srv
MayAdd(srv, a) == ~IsMulticast(srv[1]) /\ Len(a) = Len(srv[1])
(* The client object of a call: sessions have one or two of each kind. *)
Obj(call) == IF Has(call, "w") THEN call.w ELSE 0
(* Timeouts: the last value set up to the current call. *)
SetsOf(r) == IF Has(r, "set") THEN r.set ELSE <<>>
LastSet(x, key, old) == LET is == {i \in 1..Len(x) : x[i][1] = key}
                        IN IF is = {} THEN old ELSE x[CHOOSE i \in is : \A j \in is : j <= i][2]
Sets(r) == SetsOf(r) \o Flatten([i \in 1..st.ci |->
             IF (S.calls[i].o = "res") = (Call.o = "res") /\ Obj(S.calls[i]) = Obj(Call) THEN SetsOf(S.calls[i]) ELSE <<>>])
IsRes == Call.o = "res"
Cfg == IF Call.o = "res" THEN [srv |-> st.srv, to |-> LastSet(Sets(S.res), "to", S.res.to), dto |-> 0, tol |-> Tol]
       ELSE [srv |-> <<IF S.disc.mc # 0 THEN McAddr(4) ELSE S.disc.srv>>, to |-> LastSet(Sets(S.disc), "rto", S.disc.rto),
             dto |-> LastSet(Sets(S.disc), "dto", S.disc.dto), tol |-> Tol]
Dom == IF Call.o = "res" THEN <<>> ELSE IF S.disc.mc # 0 THEN Local ELSE S.disc.dom

-----------------------------------------------------------------------------
(* Resolver calls *)
ValidHost == (Has(Call, "h") => TextValid(Call.h)) /\ QueryFits(CallName(Call, <<>>), CallTypes(Call))
ResSend(c, ev) ==
  /\ c.must = "run"
  /\ P("C15") => /\ ValidHost /\ MaySendRes(Cfg, c, ev.to) /\ TimelyResSend(Cfg, c, ev.t)
                 /\ IF c.k > 0 THEN ev.b = st.q
                    ELSE IsQuery(ev.b, CallName(Call, <<>>), {TA, TAAAA}, TRUE) /\ HId(ev.b) # st.lastid[Obj(Call)]
ResRecv(c, ev) ==
  /\ c.must = "run"
  /\ P("C15") => MayRecvRes(Cfg, c) /\ TimelyResRecv(Cfg, c, ev.t)
(* The caller may take only some elements of the result. *)
Taken(ips) == IF Has(Call, "take") THEN SubSeq(ips, 1, Min(Call.take, Len(ips))) ELSE ips
ResRet(c, ev) ==
  /\ ev.r \in {"ok", "err"}
  /\ P("C14") => CASE c.must = "ok" -> ev.r = "ok" /\ ev.ips = Taken(c.ips)
                   [] c.must = "err" -> ev.r = "err"
                   [] OTHER -> ev.r = "err" /\ (ValidHost => ev.ek = "timeout")
  /\ P("C15") => CASE c.must = "err" -> ev.r = "err" /\ ev.os = c.os /\ ev.ek # "timeout"
                   [] ~ValidHost -> ev.r = "err" /\ ev.ek # "timeout" /\ c.k = 0
                   [] ev.r = "ok" -> MayRecvRes(Cfg, [c EXCEPT !.must = "run"])
                   [] OTHER -> ev.ek = "timeout" /\ TimeoutOfRes(Cfg, c, ev.t)
  /\ (P("C27") /\ Has(Call, "h") /\ ~TextValid(Call.h) /\ c.must # "err") => ev.r = "err" /\ ev.ek = "input"

-----------------------------------------------------------------------------
(* Discovery calls *)
NameFits == QueryFits(CallName(Call, Dom), CallTypes(Call))
DiscSend(c, ev) ==
  /\ Running(c)
  /\ P("C17") => NameFits
  /\ P("C17") => /\ MaySendDisc(Cfg, c, ev.to) /\ TimelyDiscSend(Cfg, c, ev.t)
                 /\ IF c.k > 0 THEN ev.b = st.q ELSE IsQuery(ev.b, CallName(Call, Dom), CallTypes(Call), FALSE)
DiscRecv(c, ev) ==
  /\ Running(c)
  /\ P("C17") => MayRecvDisc(c) /\ TimelyDiscRecv(Cfg, c, ev.t)
DiscCb(c, ev) ==
  /\ Listed(Call)
  /\ P("C16") => c.pend # <<>> /\ ev.v = c.pend[1]
DetailsOk(c, ev) == /\ ev.host = c.srv[1].host /\ ev.port = c.srv[1].port
                    /\ IF c.txts = <<>> THEN ev.txt = <<>> ELSE Lists(c.txts[1], ev.txt)
DiscRet(c, ev) ==
  /\ ev.r \in {"ok", "err"}
  /\ c.must = "err" => ev.r = "err" /\ (P("C17") => ev.os = c.os /\ ev.ek # "timeout")
  /\ ((P("C17") /\ ~NameFits) => (ev.r = "err" /\ ev.ek # "timeout" /\ c.k = 0))
  /\ (P("C16") /\ Listed(Call) /\ NameFits) =>
       /\ c.pend = <<>>
       /\ c.must # "err" => ev.r = "ok"
  /\ (P("C17") /\ c.must # "err" /\ NameFits) =>
       /\ ev.r = "ok" \/ (Call.o = "load" /\ ev.ek = "timeout")
       /\ c.must = "ok" \/ (c.srv # <<>> /\ c.txts # <<>>) \/ TimelyDiscEnd(Cfg, c, ev.t)
  /\ (P("C18") /\ Call.o = "load" /\ c.must # "err" /\ NameFits) =>
       /\ IF c.srv # <<>> THEN ev.r = "ok" /\ DetailsOk(c, ev) ELSE ev.r = "err" /\ ev.ek = "timeout"
       /\ c.must = "run" => ev.t >= EndOf(Cfg, c)

-----------------------------------------------------------------------------
(* End to end.  arr: <<advertiser, time>> of complete replies to this call.  *)
Advs == IF Has(S, "advs") THEN S.advs ELSE <<>>
Dbs == [a \in 1..Len(Advs) |-> AdvRegisterAll(AdvInit(Advs[a].h, Advs[a].ip), [i \in 1..Len(Advs[a].ops) |-> NormOp(Advs[a].ops[i])], 1)]
Insts(a) == {NormOp(Advs[a].ops[i]) : i \in {i \in 1..Len(Advs[a].ops) : Advs[a].ops[i].o = "inst"}}
SysValues(a) == IF Call.o = "types" THEN {<<o.s, o.t>> : o \in Insts(a)}
             ELSE {OpInst(o) : o \in {o \in Insts(a) : EqCI(o.s, Call.s) /\ o.t = Call.t}}
NameAddrs(a) == LET own == SelectSeq(Dbs[a], LAMBDA r : r.n = CallName(Call, <<>>) /\ r.rec.k \in {"A", "AAAA"})
                IN [i \in 1..Len(own) |-> own[i].rec.i]
Promised(a) == IF Call.o = "types" THEN SysValues(a)
               ELSE {OpInst(o) : o \in {o \in Insts(a) : o.s = Call.s /\ o.t = Call.t}}
InTime(c) == {a \in 1..Len(Advs) : \E x \in st.arr : x[1] = a /\
                 IF Call.o = "res" THEN x[2] < c.start + Cfg.to ELSE x[2] < EndOf(Cfg, c)}
SysResp(ev) == AdvOutcome(Dbs[ev.a], st.q, ev.r, ev.b)
SysCb(ev) == \E a \in 1..Len(Advs) : ev.v \in SysValues(a)
SysRet(c, ev) ==
  LET it == InTime(c) IN
  CASE Listed(Call) ->
         /\ c.must = "run" => ev.r = "ok" /\ \A a \in it : Promised(a) \subseteq c.seen
    [] Call.o = "load" ->
         LET all == UNION {{<<a, o>> : o \in {o \in Insts(a) : OpInst(o) = <<Call.i, Call.s, Call.t>>}} : a \in 1..Len(Advs)}
         IN /\ ev.r = "ok" => \E x \in all : /\ ev.host = x[2].host /\ ev.port = x[2].port
                                             /\ x[1] \in it => Lists(OpMeta(x[2]), ev.txt)
                                             /\ Lists(OpMeta(x[2]), ev.txt) \/ ev.txt = <<>>
            /\ (\E x \in all : x[1] \in it) => ev.r = "ok"
    [] OTHER ->
         /\ ev.r = "ok" => \E a \in 1..Len(Advs) : ev.ips # <<>> /\ Range(ev.ips) \subseteq Range(NameAddrs(a))
         /\ (\E a \in it : NameAddrs(a) # <<>>) => /\ ev.r = "ok"
                                                   /\ \E a \in 1..Len(Advs) : Range(ev.ips) = Range(NameAddrs(a))

(* Calls that do not return: an async call is dropped by its caller at the   *)
(* given time, or whenever it comes to wait after it; a callback panics.     *)
Dropped(c, ev) ==
  /\ S.m = "async" /\ Has(Call, "stop")
  /\ IF Call.stop < 0 THEN c.k = 0 /\ ev.t = c.start ELSE ev.t >= c.start + Call.stop
  /\ IF IsRes THEN P("C15") => ev.t <= c.last + Cfg.to + Cfg.tol
     ELSE /\ P("C16") => c.pend = <<>> \/ ev.t <= c.last + Tol
          /\ P("C17") => ev.t <= Min(c.last + Cfg.to, EndOf(Cfg, c)) + Cfg.tol
  /\ c.must = "run" \/ ev.t <= c.last + Tol
CallbackPanicked(c, ev) ==
  /\ Has(Call, "pan") /\ c.ncb = Call.pan /\ c.must = "ok" /\ c.pend = <<>>

-----------------------------------------------------------------------------
Idle == st.pc = "idle"
(* When the call goes on after an event: the callback or the system may take its time. *)
Resume(ev) == ev.t + (IF Has(ev, "d") THEN ev.d ELSE 0)
Step(ev) ==
  CASE ev.op = "adds" ->
         /\ Idle
         /\ (P("C15") => ev.ok = MayAdd(st.srv, ev.a)) = TRUE
         /\ st' = [st EXCEPT !.srv = IF ev.ok THEN Append(@, ev.a) ELSE @]
    [] ev.op = "warm" ->  \* many calls that all ended in the same way
         /\ Idle /\ ~ev.bad
         /\ st' = [st EXCEPT !.lastid[Obj(S.calls[st.ci + 1])] = ev.id]
    [] ev.op = "call" ->
         /\ Idle /\ ev.c = st.ci + 1
         /\ st' = [st EXCEPT !.pc = "run", !.ci = @ + 1, !.c = CallInit(ev.t), !.arr = {}, !.q = <<>>]
    [] ev.op = "send" ->
         /\ st.pc = "run"
         /\ (IF IsRes THEN ResSend(st.c, ev) ELSE DiscSend(st.c, ev)) = TRUE
         /\ st' = [st EXCEPT !.c = Took(OnSend(@, ev.t, ev.os), Resume(ev)),
                             !.q = IF st.c.k = 0 THEN ev.b ELSE @,
                             !.lastid[Obj(Call)] = IF IsRes THEN HId(ev.b) ELSE @]
    [] ev.op = "recv" ->
         /\ st.pc = "run"
         /\ (IF IsRes THEN ResRecv(st.c, ev) ELSE DiscRecv(st.c, ev)) = TRUE
         /\ st' = [st EXCEPT !.c =
              IF IsRes
              THEN LET c == OnResRecv(@, ev.t, IF st.q = <<>> THEN <<>> ELSE RespAddrs(HId(st.q), ev.b))
                   IN IF P("C14") THEN c ELSE [c EXCEPT !.must = "run"]
              ELSE LET c == OnDiscRecv(@, ev.t, Call, OwnedRecords(ev.b, CallName(Call, Dom)))
                   IN IF Listed(Call) THEN IF P("C16") THEN c ELSE [c EXCEPT !.pend = <<>>]
                      ELSE IF P("C18") THEN c ELSE [c EXCEPT !.must = "run"]]
    [] ev.op = "rerr" ->
         /\ st.pc = "run" /\ Running(st.c)
         /\ st' = [st EXCEPT !.c = OnRecvErr(@, ev.os)]
    [] ev.op = "cb" ->
         /\ st.pc = "run" /\ ~IsRes
         /\ st.c.must = "run"
         /\ DiscCb(st.c, ev) = TRUE
         /\ (PROP = "C21" => SysCb(ev)) = TRUE
         /\ st' = [st EXCEPT !.c = [Took(OnCb([@ EXCEPT !.pend = IF @ = <<>> THEN <<0>> ELSE @], ev.v, ev.stop), Resume(ev)) EXCEPT
                                      !.pend = IF P("C16") THEN @ ELSE <<>>]]
    [] ev.op = "resp" ->
         /\ st.pc = "run"
         /\ (PROP = "C21" => SysResp(ev)) = TRUE
         /\ st' = [st EXCEPT !.arr = IF ev.r = "resp" /\ ~HTruncated(ev.b)
                                     THEN @ \cup {<<ev.a, ev.t + ev.dl[i]>> : i \in 1..Len(ev.dl)} ELSE @]
    [] ev.op = "ret" ->
         /\ st.pc = "run" /\ ev.c = st.ci
         /\ (CASE ev.r = "dropped" -> Dropped(st.c, ev)
               [] ev.r = "panic" -> CallbackPanicked(st.c, ev)
               [] IsRes -> ResRet(st.c, ev)
               [] OTHER -> DiscRet(st.c, ev)) = TRUE
         /\ (PROP = "C21" => SysRet(st.c, ev)) = TRUE
         /\ st' = [st EXCEPT !.pc = "idle"]
    [] OTHER -> FALSE /\ st' = st

Init == /\ s \in 1..Len(T) /\ l = 1
        /\ st = [pc |-> "idle", ci |-> 0, srv |-> IF Has(T[s], "res") THEN ResSrv ELSE <<>>, lastid |-> [w \in {0, 1} |-> 0 - 1], q |-> <<>>,
                 c |-> CallInit(0), arr |-> {}]
Next ==
  /\ l <= Len(S.ev)
  /\ Step(S.ev[l])
  /\ l' = l + 1 /\ s' = s
  /\ Say(s, l, l = Len(S.ev) /\ st'.pc = "idle" /\ st'.ci = Len(S.calls))
=============================================================================
