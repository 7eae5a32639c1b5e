------------------------------- MODULE MCErrors -------------------------------
(* What the causes mean: a message (or the data of its only record) that is  *)
(* received byte by byte.  "Eof" never is the last word: more data decides; a pointer loop  *)
(* and an invalid value stay whatever follows; what decoded stays decoded.   *)
EXTENDS Errors, TLC, Json, IOUtils
CONSTANTS Depth, Types
VARIABLES t, data

Alphabet == {0, 1, 3, 64, 97, 128, 192, 12, 255}
(* t = 0: a question's name; 1000: an owner name; else the record data of that type. *)
Question == t = 0
InRec == t \notin {0, 1000}
Start == IF InRec THEN 23 ELSE HeaderLen
Message(d) ==
  CASE t = 0 -> EncHeader(0, 33792, 1, 0, 0, 0) \o d
    [] t = 1000 -> EncHeader(0, 33792, 0, 1, 0, 0) \o d
    [] OTHER -> EncHeader(0, 33792, 0, 1, 0, 0) \o <<0>> \o E16(t) \o E16(1) \o <<0, 0, 0, 120>> \o E16(Len(d)) \o d
(* The outcome of reading all there is: decoded or a cause. *)
Outcome(d) ==
  LET m == Message(d) IN
  IF InRec THEN LET r == DecodeRec(m, Len(m), Start, t)
                IN [ok |-> r.k # "err", why |-> IF r.k # "err" THEN "" ELSE RecWhy(m, Len(m), Start, t)]
  ELSE LET e == IF Question THEN ReadQuestion(m, Start) ELSE ReadRR(m, Start)
       IN [ok |-> e.ok, why |-> IF e.ok THEN "" ELSE EntryWhy(m, Start)]

Init == t \in Types /\ data = <<>>
Receive(b) == data' = Append(data, b) /\ t' = t
Next == Len(data) < Depth /\ \E b \in Alphabet : Receive(b)
Spec == Init /\ [][Next]_<<t, data>>

Now == Outcome(data)
Named == (Now.why # "") = ~Now.ok /\ (~Now.ok => Now.why \in {"Eof", "PointerLoop", "InvalidValue"})
(* 400 more bytes complete every label, pointer, integer and string. *)
Healed == Now.why = "Eof" => Outcome(data \o Zeros(400)).why # "Eof"
Final == [][(Now.why \in {"PointerLoop", "InvalidValue"} => Outcome(data').why = Now.why)
            /\ ((Now.ok /\ t # TTXT) => Outcome(data').ok)]_<<t, data>>
PrintScript == (IOEnv.GEN = "1" /\ ~Now.ok) =>
  PrintT(<<"SCRIPT", ToJson([k |-> "dec", b |-> Message(data),
                             plan |-> IF Question THEN (IF Len(data) % 2 = 0 THEN <<"n", "n">> ELSE <<"g1">>) ELSE <<"g1", "I">>])>>)
=============================================================================
