-------------------------------- MODULE MCQuery --------------------------------
(* Clients built from the helpers, over pools of small packets, names and     *)
(* buffer sizes: histories of encoding, collecting and telling.               *)
(*   ips   the caller's list       told   records the callback was told       *)
(*   hist  operations so far       src    indices of the packets collected    *)
EXTENDS Query, TLC, Json, IOUtils
CONSTANTS Depth
VARIABLES tab, ips, told, src, hist

A1 == <<97>>  A2 == <<65>>
Nm == <<A1, <<120>>>>  Nm2 == <<A2, <<120>>>>  Nm3 == <<A1>>
TTL == <<0, 9>>
Ip(n, x) == EncRRRaw(n, TA, 1, TTL, <<10, 0, 0, x>>)
Bad(n) == EncRRRaw(n, TPTR, 1, TTL, <<5>>)
Unknown(n) == EncRRRaw(n, 99, 1, TTL, <<1, 2, 3, 4>>)
Text1(n) == EncRRRaw(n, TTXT, 1, TTL, <<1, 107>>)
Cut(n) == SubSeq(Ip(n, 9), 1, Len(Ip(n, 9)) - 1)
Entries == <<Ip(Nm, 1), Ip(Nm2, 2), Ip(Nm3, 3), Bad(Nm), Unknown(Nm), Text1(Nm), Cut(Nm)>>
RECURSIVE Cat(_, _)
Cat(q, i) == IF i > Len(q) THEN <<>> ELSE Entries[q[i]] \o Cat(q, i + 1)
Seqs == {<<>>} \cup {<<i>> : i \in 1..7} \cup {<<i, j>> : i \in 1..6, j \in 1..7} \cup {<<1, 6, 2>>, <<6, 3, 1>>}
(* f: 0 response, 1 query, 2 response with a broken question, 3 less than a header *)
Forms == [q : Seqs, f : {0}] \cup [q : {<<1>>, <<1, 2>>}, f : {1, 2, 3}]
Packet(x) ==
  CASE x.f = 0 -> EncHeader(7, 32768, 0, Len(x.q), 0, 0) \o Cat(x.q, 1)
    [] x.f = 1 -> EncHeader(7, 0, 0, Len(x.q), 0, 0) \o Cat(x.q, 1)
    [] x.f = 2 -> EncHeader(7, 32768, 1, Len(x.q), 0, 0) \o <<192>> \o Cat(x.q, 1)
    [] x.f = 3 -> SubSeq(EncHeader(7, 32768, 0, 0, 0, 0), 1, 11)
Order(S) == CHOOSE q \in [1..Cardinality(S) -> S] : Range(q) = S

Init == /\ tab = [x \in Forms |-> Packet(x)] /\ ips = <<>> /\ told = <<>> /\ src = <<>> /\ hist = <<>>

Collect(x, clear) ==
  LET p == tab[x]
      old == IF clear = 1 THEN <<>> ELSE ips
      a == Answers(p)
      good == IF HIsResponse(p) THEN UpToBad(p, a.es, 1) ELSE <<>>
      whole == ~HIsResponse(p) \/ (a.ok /\ good = a.es)
      all == IF x.f = 3 THEN <<>> ELSE AddrsFrom(p, good, 1)
  IN \E new \in IF x.f = 3 THEN {old} ELSE IF whole THEN {old \o all} ELSE {old \o SubSeq(all, 1, k) : k \in 0..Len(all)} :
       /\ Assert(CollectOutcome(old, p, whole /\ x.f # 3, new), <<"collect", x>>)
       /\ ips' = new
       /\ src' = IF clear = 1 THEN <<x>> ELSE Append(src, x)
       /\ hist' = Append(hist, [o |-> "ra", b |-> p, clear |-> clear])
       /\ UNCHANGED <<tab, told>>
Tell(x, own, stop) ==
  LET p == tab[x]
      all == IF Opens(p) THEN Told(p, own) ELSE <<>>
  IN /\ told' = IF stop \in 1..Len(all) THEN SubSeq(all, 1, stop) ELSE all
     /\ hist' = Append(hist, [o |-> "da", b |-> p, stop |-> stop] @@ (IF own = <<>> THEN <<>> ELSE [own |-> own[1]]))
     /\ UNCHANGED <<tab, ips, src>>
Ask(n, ts, cap) ==
  /\ hist' = Append(hist, [o |-> "dq", n |-> n, ts |-> ts, cap |-> cap, fill |-> 0])
  /\ UNCHANGED <<tab, ips, told, src>>
Next == /\ Len(hist) < Depth
        /\ \/ \E x \in Forms, c \in {0, 1} : (c = 1 => hist # <<>>) /\ Collect(x, c)
           \/ \E x \in Forms, own \in {<<>>, <<Nm>>, <<Nm3>>}, stop \in {0, 1, 2} : hist = <<>> /\ Tell(x, own, stop)
           \/ \E n \in {<<>>, Nm}, ts \in {<<>>, <<TPTR>>, <<TSRV, TTXT>>}, cap \in {12, 16, 17, 20, 21, 22, 30, 31} : hist = <<>> /\ Ask(n, ts, cap)
Spec == Init /\ [][Next]_<<tab, ips, told, src, hist>>

-----------------------------------------------------------------------------
(* What is in the list comes from the packets since it was emptied, each packet in order. *)
AddrOf(k) == CASE k = 1 -> <<<<10, 0, 0, 1>>>> [] k = 2 -> <<<<10, 0, 0, 2>>>> [] k = 3 -> <<<<10, 0, 0, 3>>>> [] OTHER -> <<>>
Says(x) == IF x.f # 0 THEN <<>> ELSE Flatten([i \in 1..Len(x.q) |-> AddrOf(x.q[i])])
Broken(x) == \E i \in 1..Len(x.q) : x.q[i] \in {4, 7}
RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN <<>> ELSE Says(Head(q)) \o Total(Tail(q))
FromPackets == /\ Len(ips) <= Len(Total(src))
               /\ (\A i \in 1..Len(src) : ~Broken(src[i])) => ips = Total(src)
(* Telling records: of one owner is the owner's part of telling all; stopping gives the beginning. *)
LastTell == hist # <<>> /\ hist[Len(hist)].o = "da"
OwnerPart == LastTell => LET o == hist[Len(hist)] IN
   /\ Len(told) <= Len(Told(o.b, <<>>)) \/ ~Opens(o.b)
   /\ o.stop > 0 => Len(told) <= o.stop
   /\ \A i \in 1..Len(told) : told[i].k \in {"A", "TXT"}
   /\ ("own" \in DOMAIN o /\ o.own = Nm3) => \A i \in 1..Len(told) : told[i].i = <<10, 0, 0, 3>>
   /\ ("own" \in DOMAIN o /\ o.own = Nm) => \A i \in 1..Len(told) : told[i].i # <<10, 0, 0, 3>>
(* Own encoding of a query is one, is of the stated size, and is none of another name or type. *)
Queries == (hist = <<>>) => \A n \in {<<>>, Nm, Nm2, Nm3}, ts \in {<<>>, <<TPTR>>, <<TSRV, TTXT>>, <<TA, TAAAA>>}, rd \in BOOLEAN :
   LET p == EncAsk(99, n, ts, rd) IN
   /\ AsksFor(p, n, ts, rd) /\ Len(p) = QuerySize(n, ts)
   /\ IsQuery(p, n, {ts[i] : i \in 1..Len(ts)}, rd)
   /\ ts # <<>> => ~AsksFor(p, Append(n, <<121>>), ts, rd)
   /\ Len(ts) = 2 => ~AsksFor(p, n, <<ts[2], ts[1]>>, rd)
   /\ ~rd => ~AsksFor(p, n, ts, TRUE)
   /\ ~AsksFor(SubSeq(p, 1, Len(p) - 1), n, ts, rd)
(* The exact outcome satisfies the relations; others do not. *)
Judge == LastTell => LET o == hist[Len(hist)]
                         own == IF "own" \in DOMAIN o THEN <<o.own>> ELSE <<>>
                         all == IF Opens(o.b) THEN Told(o.b, own) ELSE <<>>
                         brk == o.stop \in 1..Len(all)
   IN /\ TellOutcome(o.b, own, o.stop, TRUE, brk, told) \/ TellOutcome(o.b, own, o.stop, FALSE, brk, told)
      /\ ~TellOutcome(o.b, own, o.stop, TRUE, ~brk, told)
      /\ told # <<>> => ~TellOutcome(o.b, own, o.stop, TRUE, brk, Tail(told))
Script == [k |-> "query", ops |-> hist]
PrintScript == (IOEnv.GEN = "1" /\ hist # <<>> /\ (Len(hist) = Depth \/ hist[1].o # "ra")) => PrintT(<<"SCRIPT", ToJson(Script)>>)
=============================================================================
