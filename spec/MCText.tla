------------------------------- MODULE MCText -------------------------------
(* Names, TXT metadata and service names as values built by histories of    *)
(* operations, over small alphabets.  KIND selects what is built.            *)
EXTENDS Txt, Service, TLC, Json, IOUtils
CONSTANTS Depth
VARIABLES st, hist

KIND == IOEnv.KIND
Names0 == {<<>>, <<<<97>>>>, <<<<98, 46>>, <<255>>>>, <<<<97>>, <<65>>>>}
NameOps == [o : {"push"}, b : {<<97>>, <<92>>, [i \in 1..63 |-> 120]}]
           \cup [o : {"ext"}, ns : Names0, ref : {0, 1}] \cup [o : {"collect"}, ns : Names0, ref : {0, 1}]
           \cup [o : {"cmp"}, ns : Names0] \cup [o : {"parse"}, b : {<<>>, <<46>>, <<97, 46>>, <<46, 97>>, <<97, 46, 46>>, <<97, 46, 98>>}]
NameApply(m, o) == CASE o.o = "push" -> Append(m, o.b) [] o.o = "ext" -> m \o o.ns [] o.o = "collect" -> o.ns
                     [] o.o = "parse" -> IF TextValid(o.b) THEN TextParts(o.b) ELSE m [] OTHER -> m

Strs == {<<>>, <<61>>, <<107>>, <<75>>, <<107, 61>>, <<75, 61, 61, 0>>, <<61, 107>>, <<195, 169, 61, 1>>, <<195, 61>>, <<195, 137>>}
KeyTexts == {<<107>>, <<75>>, <<195, 169>>, <<195, 137>>, <<120>>}
TxtOps == [o : {"from"}, x : {<<a, b>> : a \in Strs, b \in Strs} \cup {<<<<107>>, <<75, 61, 49>>, <<107, 61, 50>>>>}]
          \cup [o : {"flag"}, b : KeyTexts] \cup [o : {"get"}, b : KeyTexts]
TxtApply(m, o) == CASE o.o = "from" -> TxtFrom(o.x) [] o.o = "flag" -> TxtAddFlag(m, o.b) [] OTHER -> m

(* Strings over a small alphabet, built character by character. *)
Alphabet == {<<97>>, <<46>>, <<95>>, <<195, 169>>}

Labels == {LTcp, LUdp, <<95, 104>>, <<120>>, <<116, 99, 112>>, <<95>>}

Init == /\ hist = <<>>
        /\ st = IF KIND = "txt" THEN {} ELSE <<>>
Next ==
  /\ Len(hist) < Depth
  /\ CASE KIND = "name" -> \E o \in NameOps : st' = NameApply(st, o) /\ hist' = Append(hist, o)
       [] KIND = "txt" -> \E o \in TxtOps : /\ (o.o = "from" => hist = <<>>)
                                            /\ st' = TxtApply(st, o) /\ hist' = Append(hist, o)
       [] KIND = "svc" -> \E c \in Labels : st' = Append(st, c) /\ hist' = Append(hist, c)
       [] KIND = "text" -> \E c \in Alphabet : st' = st \o c /\ hist' = Append(hist, c)

NameInv == KIND = "name" => ValidName(st) /\ (PlainName(st) => TextValid(Text(st)) /\ TextParts(Text(st)) = st)
(* A string is accepted iff no part is empty or too long, except behind a trailing dot. *)
Count0(c) == Cardinality({i \in 1..Len(st) : st[i] = c})
TextInv == KIND = "text" =>
  /\ TextValid(st) = (st \in {<<>>, <<46>>} \/
       (st[1] # 46 /\ \A i \in 1..(Len(st) - 1) : ~(st[i] = 46 /\ st[i + 1] = 46)))
  /\ (TextValid(st) /\ PlainName(TextParts(st))) =>
        Text(TextParts(st)) = IF st = <<>> \/ st[Len(st)] # 46 THEN Append(st, 46) ELSE st
TxtInv == KIND = "txt" =>
  /\ \A e, f \in st : e.lk = f.lk => e = f
  /\ \A e \in st : e.lk # <<>> /\ \A k \in e.ks : TxtGet(st, k).h = e.h /\ TxtGet(st, Lower(k)).h = e.h
  /\ (hist # <<>> /\ hist[Len(hist)].o = "flag") => TxtGet(st, hist[Len(hist)].b).h = 1
  (* writing the metadata out and reading it back keeps it *)
  /\ LET es == CHOOSE q \in [1..Cardinality(st) -> st] : Range(q) = st
         x == [i \in 1..Cardinality(st) |-> EntryBytes(es[i])]
     IN Keys(TxtFrom(x)) = Keys(st) /\ \A e \in st : TxtGet(TxtFrom(x), e.lk) = TxtGet(st, e.lk)
(* Dropping the instance label of an instance name leaves a service name; the parsed components rebuild the name. *)
SvcInv == KIND = "svc" =>
  /\ st # <<>> => PtrIsInstance(st) = PtrIsService(Tail(st))
  /\ PtrIsService(st) => ServiceName(PtrService(st), SubSeq(st, 3, Len(st))) = st
  /\ PtrIsInstance(st) => InstanceName(PtrInstance(st), SubSeq(st, 4, Len(st))) = st
Script == IF KIND = "svc" THEN [k |-> "svc", ops |-> <<[o |-> "ptr", n |-> st]>>] ELSE IF KIND = "text" THEN [k |-> "name", ops |-> <<[o |-> "parse", b |-> st], [o |-> "label", b |-> st]>>]
          ELSE [k |-> KIND, ops |-> hist]
PrintScript == (IOEnv.GEN = "1" /\ (Len(hist) = Depth \/ KIND = "text")) => PrintT(<<"SCRIPT", ToJson(Script)>>)
=============================================================================
