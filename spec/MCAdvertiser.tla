---------------------------- MODULE MCAdvertiser ----------------------------
(* Histories of registrations and packets.  Checked on the specification:   *)
(* a reference reply always satisfies the reply relation, losing or adding a *)
(* record never does, and the DNS-SD chain from the service list to host     *)
(* name and metadata of every registered instance is closed.                 *)
EXTENDS Advertiser, TLC, Json, IOUtils
CONSTANTS Depth
VARIABLES db, hist, insts

L(c) == <<c>>
H == L(104)
Regs == { [o |-> "name", h |-> L(103), ip |-> <<10, 0, 0, 2>>],
          [o |-> "name", h |-> H, ip |-> [i \in 1..16 |-> i]],
          [o |-> "inst", i |-> L(105), s |-> <<95, 97>>, t |-> 0, host |-> HostName(H), port |-> 80, x |-> <<>>, fl |-> <<>>],
          [o |-> "inst", i |-> L(106), s |-> <<95, 97>>, t |-> 0, host |-> HostName(H), port |-> 65535, x |-> <<<<107, 61, 118>>, <<102>>>>, fl |-> <<<<122>>>>],
          [o |-> "inst", i |-> L(105), s |-> <<95, 97>>, t |-> 1, host |-> <<>>, port |-> 0, x |-> <<<<107, 61>>>>, fl |-> <<>>] }
QNames == {HostName(H), HostName(L(103)), MetaService \o Local, ServiceName(<<<<95, 97>>, 0>>, Local),
           InstanceName(<<L(105), <<95, 97>>, 0>>, Local), InstanceName(<<L(106), <<95, 97>>, 0>>, Local)}
Qs == {EncQuestion(n, t, 1) : n \in QNames, t \in {255, 12, 33, 16, 1, 28}}
Q1(n) == EncQuestion(n, 255, 255)
Hdr(flags, n) == EncHeader(4660, flags, n, 0, 0, 0)
Packets == {Hdr(0, 1) \o q : q \in Qs}
   \cup {Hdr(f, 1) \o Q1(HostName(H)) : f \in {0, 256, 32768, 2048, 1, 33792, 512}}
   \cup {Hdr(0, 2) \o Q1(n) \o <<192, 12, 0, 255, 0, c>> : n \in {HostName(H), MetaService \o Local}, c \in {1, 3}}
   \cup {Hdr(0, 2) \o Q1(HostName(H)), Hdr(0, 0), <<>>, <<0, 1, 2>>, Hdr(0, 1) \o <<192, 12, 0, 1, 0, 1>>}

Init == db = AdvInit(H, <<127, 0, 0, 1>>) /\ hist = <<>> /\ insts = {}
Register(op) == /\ db' = AdvRegister(db, op) /\ hist' = Append(hist, op)
                /\ insts' = IF op.o = "inst" THEN insts \cup {op} ELSE insts
Packet(p) == hist' = Append(hist, [o |-> "pkt", b |-> p]) /\ UNCHANGED <<db, insts>>
Next == Len(hist) < Depth /\ (\/ \E op \in Regs : Register(op) \/ \E p \in Packets : Packet(p))

LastPkt == hist[Len(hist)].b
ReplyInv == (hist # <<>> /\ hist[Len(hist)].o = "pkt") =>
  CASE AdvKind(db, LastPkt) = "reply" ->
         /\ AdvOutcome(db, LastPkt, "resp", RefReply(db, LastPkt))
         /\ ~AdvOutcome(db, LastPkt, "none", <<>>)
         /\ \A i \in Wanted(db, Questions(LastPkt)) :
              LET less == SubSeq(db, 1, i - 1) \o SubSeq(db, i + 1, Len(db))
                  unique == \A j \in 1..Len(less) : less[j] # db[i]
              IN unique => /\ ~AdvReply(db, LastPkt, RefReply(less, LastPkt))
                           /\ ~AdvReply(less, LastPkt, RefReply(db, LastPkt))
    [] OTHER -> ~AdvOutcome(db, LastPkt, "resp", RefReply(db, LastPkt))
(* Only well-formed queries are answered (stated on the bytes). *)
AnswersQueries == (hist # <<>> /\ hist[Len(hist)].o = "pkt" /\ AdvKind(db, LastPkt) = "reply") =>
  /\ Len(LastPkt) > 12 /\ LastPkt[3] < 8 /\ LastPkt[4] % 16 = 0 /\ LastPkt[5] + LastPkt[6] > 0
Find(n, t) == {db[i].rec : i \in Wanted(db, <<[n |-> n, t |-> t, c |-> ClassIN]>>)}
ChainInv == \A op \in insts :
  LET i == OpInst(op)
      svc == ServiceName(<<i[2], i[3]>>, Local)
  IN /\ \E p \in Find(MetaService \o Local, TPTR) : p.n[1] = svc /\ PtrService(p.n[1]) = <<i[2], i[3]>>
     /\ \E p \in Find(svc, TPTR) : PtrInstance(p.n[1]) = i /\ p.n[1] = InstanceName(i, Local)
     /\ \E p \in Find(InstanceName(i, Local), TSRV) : p.n[1] = op.host /\ p.i[3] = op.port
     /\ \E p \in Find(InstanceName(i, Local), TTXT) : TxtFrom(p.x) = OpMeta(op)
     /\ Cardinality(Find(InstanceName(i, Local), 255)) = 2
Script == [k |-> "adv", h |-> H, ip |-> <<127, 0, 0, 1>>, ops |-> hist]
PrintScript == (IOEnv.GEN = "1" /\ Len(hist) = Depth) => PrintT(<<"SCRIPT", ToJson(Script)>>)
=============================================================================
