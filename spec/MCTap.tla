-------------------------------- MODULE MCTap --------------------------------
(* The tap under all sequences of packets and socket errors.                 *)
(*   pend  lines to log for the packet at hand                                *)
EXTENDS Format, TLC, Json, IOUtils
CONSTANTS MaxPkts

VARIABLES tab, net, pend, log, pc
vars == <<tab, net, pend, log, pc>>

N1 == <<<<97>>, <<108, 46>>>>
Good(f, sec, r) == EncHeader(258, f, IF sec = 0 THEN 1 ELSE 0, IF sec = 1 THEN 1 ELSE 0, IF sec = 2 THEN 1 ELSE 0, IF sec = 3 THEN 1 ELSE 0) \o r
RR1(r) == EncRR(N1, 1, <<0, 120>>, r)
A1 == Rec("A", <<10, 0, 0, 1>>, <<>>, <<>>)
Pool == [
  empty |-> <<>>,
  head  |-> EncHeader(1, 0, 0, 0, 0, 0),
  q     |-> Good(256, 0, EncQuestion(N1, 255, 32769)),
  a     |-> Good(33792, 1, RR1(A1)),
  t2    |-> Good(33792, 2, RR1(Rec("TXT", <<>>, <<>>, <<<<97, 9>>, <<>>, <<61>>>>))),
  s3    |-> Good(33792, 3, RR1(Rec("SRV", <<1, 2, 3>>, <<N1>>, <<>>))),
  badrd |-> EncHeader(9, 33792, 0, 2, 0, 0) \o EncRRRaw(N1, TA, 1, <<1, 0>>, <<1, 2>>) \o RR1(A1),
  cutq  |-> EncHeader(9, 0, 2, 1, 0, 0) \o EncQuestion(N1, 1, 1) \o <<64>>,
  cuta  |-> EncHeader(9, 33792, 0, 3, 1, 0) \o RR1(A1) \o <<3>>,
  loop  |-> EncHeader(9, 33792, 0, 1, 0, 0) \o <<192, 12>> ]
Kinds == DOMAIN Pool

Init == tab = [k \in Kinds |-> Lines(Pool[k])] /\ net = <<>> /\ pend = <<>> /\ log = <<>> /\ pc = "recv"
Recv == /\ pc = "recv" /\ Len(net) < MaxPkts
        /\ \E k \in Kinds : /\ net' = Append(net, k)
                            /\ pend' = tab[k]
                            /\ pc' = IF tab[k] = <<>> THEN "recv" ELSE "log"
        /\ UNCHANGED <<tab, log>>
Log == /\ pc = "log"
       /\ log' = Append(log, <<Len(net), pend[1]>>)
       /\ pend' = Tail(pend)
       /\ pc' = IF Len(pend) = 1 THEN "recv" ELSE "log"
       /\ UNCHANGED <<tab, net>>
Fail == pc = "recv" /\ pc' = "done" /\ UNCHANGED <<tab, net, pend, log>>
Next == Recv \/ Log \/ Fail
Spec == Init /\ [][Next]_vars /\ WF_vars(Log)

(* Every packet's lines, in order, in the order of the packets. *)
RECURSIVE AllLines(_)
AllLines(i) == IF i > Len(net) THEN <<>>
               ELSE [j \in 1..Len(tab[net[i]]) |-> <<i, tab[net[i]][j]>>] \o AllLines(i + 1)
Everything == /\ log = SubSeq(AllLines(1), 1, Len(log))
              /\ pc # "log" => log = AllLines(1)
(* One header line per packet that has a header; entries up to the first that fails. *)
Counts == \A k \in Kinds : Len(tab[k]) = CASE k = "empty" -> 0 [] k \in {"head", "loop"} -> 1
                                            [] k = "badrd" -> 3 [] OTHER -> 2
OnlyErrorsEnd == [][pc' = "done" => pc = "recv" /\ pend = <<>>]_vars
Continues == pc = "log" ~> pc = "recv"

PrintScript == (IOEnv.GEN = "1" /\ pc = "done") =>
  PrintT(<<"SCRIPT", ToJson([k |-> "tap", net |-> [i \in 1..Len(net) + 1 |->
    IF i > Len(net) THEN [at |-> i, err |-> 100 + i] ELSE [at |-> i, b |-> Pool[net[i]]]]])>>)
=============================================================================
