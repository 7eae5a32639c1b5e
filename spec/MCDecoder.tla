----------------------------- MODULE MCDecoder -----------------------------
(* One decoding session: every message put together from a pool of chunks,  *)
(* every order of calls.  Checked: the streaming decoder agrees with the    *)
(* declarative reading of the message, stays inside it, delivers no more    *)
(* than announced and nothing after an error; following a name terminates.  *)
(* Prints the behaviours as scripts.                                        *)
EXTENDS Decoder, TLC, Json, IOUtils

(* Stride: scripts are printed for every Stride-th message only. *)
CONSTANTS Depth, MaxChunks, Stride
VARIABLES buf, d, plan, got, over, last

Root == <<0>>
NA == <<1, 97, 0>>
Q1 == NA \o <<0, 1, 0, 1>>
RRA(n) == n \o <<0, 1, 128, 1, 0, 0, 0, 120, 0, 4, 1, 2, 3, 4>>
Chunks == <<
  Q1,                                                        (* question "a." *)
  <<192, 12, 0, 255, 128, 255>>,                             (* question whose name is a pointer *)
  RRA(Root),                                                 (* A record of the root *)
  RRA(<<2, 97, 97, 192, 12>>),                               (* label, then a pointer *)
  <<192, 12, 0, 12, 0, 1, 0, 0, 0, 1, 0, 2, 192, 12>>,       (* PTR with compressed data *)
  <<0, 0, 16, 0, 1, 0, 0, 0, 1, 0, 3, 1, 97, 0>>,            (* TXT: "a", "" *)
  <<0, 0, 16, 0, 1, 0, 0, 0, 1, 0, 2, 2, 97>>,               (* TXT whose string is cut off *)
  <<0, 0, 33, 0, 1, 0, 0, 0, 1, 0, 8, 0, 1, 0, 2, 0, 3, 0, 9>>,   (* SRV followed by a surplus byte *)
  <<0, 0, 1, 0, 1, 0, 0, 0, 1, 0, 3, 1, 2, 3>>,              (* A record of three bytes *)
  <<0, 0, 99, 0, 1, 0, 0, 0, 1, 0, 1, 7>>,                   (* unknown type *)
  <<192, 26>>,                                               (* pointer that may lead anywhere *)
  <<64>>, <<1>>, <<0>> >>
Counts == {<<0, 0, 0, 0>>, <<1, 0, 0, 0>>, <<2, 0, 0, 0>>, <<0, 1, 0, 0>>, <<1, 1, 0, 0>>, <<0, 1, 1, 0>>,
           <<0, 0, 1, 1>>, <<1, 0, 0, 1>>, <<0, 1, 1, 1>>, <<1, 1, 1, 0>>, <<0, 2, 0, 1>>, <<1, 2, 0, 0>>}
RECURSIVE Join(_, _)
Join(c, i) == IF i > Len(c) THEN <<>> ELSE Chunks[c[i]] \o Join(c, i + 1)
Message(cn, c) == EncHeader(4660, 33920, cn[1], cn[2], cn[3], cn[4]) \o Join(c, 1)

(* last: result of the last call; tab: what a reader of the whole message finds. *)
VARIABLE tab
Init ==
  /\ \E k \in 0..MaxChunks, cn \in Counts : \E c \in [1..k -> 1..Len(Chunks)] : buf = Message(cn, c)
  /\ d = DecInit(buf) /\ plan = <<>> /\ got = <<<<>>, <<>>, <<>>, <<>>>> /\ over = FALSE /\ last = ""
  /\ tab = ReadMessage(buf)

(* Exhausting the section. *)
RECURSIVE Drain(_, _)
Drain(x, es) == LET y == DecNext(buf, x) IN
  IF y.r \in {"q", "rr"} THEN Drain(y.d, Append(es, y.e)) ELSE [d |-> y.d, es |-> es]

CallNext ==
  /\ plan' = Append(plan, IF Len(plan) % 2 = 0 THEN "n" ELSE "i")
  /\ LET y == DecNext(buf, d) IN
       /\ d' = y.d /\ last' = y.r
       /\ got' = IF y.r \in {"q", "rr"} THEN [got EXCEPT ![d.sec + 1] = Append(@, y.e)] ELSE got
  /\ UNCHANGED <<buf, over, tab>>
CallAll ==
  /\ plan' = Append(plan, "I")
  /\ LET y == Drain(d, <<>>) IN /\ d' = y.d /\ last' = "none"
                                /\ got' = [got EXCEPT ![d.sec + 1] = @ \o y.es]
  /\ UNCHANGED <<buf, over, tab>>
(* A session ends with a move that fails; a move after an error may do either. *)
CallGoto(to) ==
  /\ to > d.sec
  /\ plan' = Append(plan, "g" \o ToString(to))
  /\ LET x == DecSkip(buf, d, to) IN d' = x /\ over' = (x.bad \/ d.bad)
  /\ last' = "goto"
  /\ UNCHANGED <<buf, got, tab>>
Next == /\ ~over /\ Len(plan) < Depth
        /\ CallNext \/ CallAll \/ \E to \in 1..3 : CallGoto(to)

-----------------------------------------------------------------------------
IsPrefix(x, y) == Len(x) <= Len(y) /\ SubSeq(y, 1, Len(x)) = x
(* What was delivered is what the message contains, in order, from the start of the section. *)
Agrees == \A sec \in 1..4 : IsPrefix(got[sec], tab.s[sec])
Announced == \A sec \in 1..4 : Len(got[sec]) <= HCount(buf, sec - 1) /\ d.left[sec] + Len(got[sec]) <= HCount(buf, sec - 1)
Inside == /\ d.pos \in HeaderLen..Len(buf)
          /\ \A sec \in 1..4 : \A i \in 1..Len(got[sec]) : got[sec][i].p <= Len(buf)
(* A section is exhausted exactly when it was delivered or skipped completely; errors only where the message has one. *)
Complete == /\ ~d.bad /\ d.left[d.sec + 1] = 0 /\ ~over => \A sec \in 1..(d.sec + 1) : Len(tab.s[sec]) = HCount(buf, sec - 1)
            /\ d.bad => ~tab.ok
            /\ tab.ok => ~over
(* After an error nothing is delivered any more (stated on transitions); it is reported once. *)
Silent == [][d.bad => got' = got /\ last' \in {"none", "goto"}]_<<buf, d, plan, got, over, last, tab>>

(* Following a name: the pair (start of the part, bytes left) decreases. *)
RECURSIVE Descends(_, _)
Descends(lim, x) ==
  x.st # "run" \/
  LET y == NameStep(buf, lim, x) IN
    /\ y.st = "run" => y.min < x.min \/ (y.min = x.min /\ y.pos > x.pos)
    /\ y.st = "run" => y.pos < Len(buf) + 1
    /\ Len(y.labels) <= Len(x.labels) + 1
    /\ Descends(lim, y)
Terminates == d.pos < Len(buf) => Descends(Len(buf), NameInit(d.pos))
(* Every name is made of labels that can be written down again. *)
Legal == \A sec \in 1..4 : \A i \in 1..Len(got[sec]) :
           \A j \in 1..Len(got[sec][i].n) : Len(got[sec][i].n[j]) \in 1..63

Script == [k |-> "dec", b |-> buf, plan |-> plan]
RECURSIVE Sum(_, _)
Sum(x, i) == IF i > Len(x) THEN 0 ELSE i * x[i] + Sum(x, i + 1)
PrintScript == (IOEnv.GEN = "1" /\ (Len(plan) = Depth \/ over) /\ (Stride = 1 \/ Sum(buf, 1) % Stride = 0)) => PrintT(<<"SCRIPT", ToJson(Script)>>)
=============================================================================
