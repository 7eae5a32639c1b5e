------------------------------- MODULE MCSockets -------------------------------
(* Objects made and dropped over an operating system any step of which may    *)
(* fail, with other software on the mDNS port.                                *)
(*   socks   open sockets, id -> what the system knows                        *)
(*   objs    live objects, index -> [w, own]; dead ones have w = "none"       *)
(*   cur     the object being set up (or listening): kind, next step, socket  *)
(*   other   other software on port 5353: 0 none, 1 sharing it, 2 not         *)
EXTENDS Sockets, TLC, Json, IOUtils
CONSTANTS MaxOps, Pool
VARIABLES socks, objs, cur, other, last, nid, hist
vars == <<socks, objs, cur, other, last, nid, hist>>

Idle == [w |-> "none", pc |-> 0, sk |-> 0, i |-> 0]
Blank(w) == [fam |-> IF w \in {"resm6", "aresm6"} THEN 6 ELSE 4, port |-> 0, any |-> TRUE, shared |-> FALSE, groups |-> {}, loop |-> TRUE, nb |-> w \in AsyncKinds]
Program(w) == IF w \in Clients THEN IF w \in AsyncKinds THEN <<"socket", "bind">> ELSE <<"socket", "bind", "timeout">>
              ELSE IF w = "tap" THEN <<"socket", "share", "bind", "join", "loop">>
              ELSE <<"socket", "share", "bind", "join">>
Others == IF other = 0 THEN {} ELSE {[fam |-> 4, port |-> MdnsPort, any |-> TRUE, shared |-> other = 1, groups |-> {MdnsGroup}, loop |-> TRUE, nb |-> FALSE]}
Sockets == {socks[k] : k \in DOMAIN socks}
Without(f, k) == [j \in DOMAIN f \ {k} |-> f[j]]
Live == {i \in 1..Len(objs) : objs[i].w # "none"}
Op(o) == hist' = Append(hist, o)

Init == /\ socks = <<>> /\ objs = <<>> /\ cur = Idle /\ other = 0 /\ last = "" /\ nid = 1 /\ hist = <<>>

Make(w) ==
  /\ cur = Idle /\ last' = ""
  /\ Op([o |-> "mk", w |-> w, f |-> 0])
  /\ IF NeedsSocket(w) THEN cur' = [Idle EXCEPT !.w = w, !.pc = 1] /\ UNCHANGED objs
     ELSE objs' = Append(objs, [w |-> w, own |-> {}]) /\ UNCHANGED cur
  /\ UNCHANGED <<socks, other, nid>>
Listen(i) ==
  /\ cur = Idle /\ objs[i].w = "adv" /\ last' = ""
  /\ Op([o |-> "listen", i |-> i - 1, f |-> 0])
  /\ cur' = [Idle EXCEPT !.w = "adv", !.pc = 1, !.i = i]
  /\ UNCHANGED <<socks, objs, other, nid>>
Step ==
  /\ cur # Idle /\ cur.pc <= Len(Program(cur.w))
  /\ LET p == Program(cur.w)[cur.pc]
         x == IF p = "socket" THEN Blank(cur.w) ELSE socks[cur.sk]
         k == IF p = "socket" THEN nid ELSE cur.sk
         y == CASE p = "share" -> [x EXCEPT !.shared = TRUE]
                [] p = "bind" -> [x EXCEPT !.port = IF cur.w \in Clients THEN 0 ELSE MdnsPort]
                [] p = "join" -> [x EXCEPT !.groups = {MdnsGroup}]
                [] OTHER -> x
     IN /\ p = "bind" => ~Clash(y, (Sockets \ {x}) \cup Others)
        /\ socks' = (k :> y) @@ socks
        /\ nid' = IF p = "socket" THEN nid + 1 ELSE nid
        /\ cur' = [cur EXCEPT !.sk = k, !.pc = @ + 1]
  /\ UNCHANGED <<objs, other, last, hist>>
(* The step fails: the socket is closed again, the error is returned. *)
Fail(why) ==
  /\ cur # Idle /\ cur.pc <= Len(Program(cur.w))
  /\ IF why = "refused"
     THEN /\ Program(cur.w)[cur.pc] = "bind" /\ cur.w \notin Clients
          /\ LET x == socks[cur.sk] IN Clash([x EXCEPT !.port = MdnsPort], (Sockets \ {x}) \cup Others)
          /\ UNCHANGED hist
     ELSE hist' = [hist EXCEPT ![Len(hist)].f = cur.pc]
  /\ socks' = Without(socks, cur.sk)
  /\ objs' = IF cur.i = 0 THEN Append(objs, [w |-> "none", own |-> {}]) ELSE objs
  /\ cur' = Idle /\ last' = why
  /\ UNCHANGED <<other, nid>>
Finish ==
  /\ cur # Idle /\ cur.pc > Len(Program(cur.w))
  /\ IF cur.i = 0 THEN objs' = Append(objs, [w |-> cur.w, own |-> {cur.sk}]) /\ socks' = socks /\ last' = "ok"
     ELSE objs' = objs /\ socks' = Without(socks, cur.sk) /\ last' = "ended" \* listening ends with an error
  /\ cur' = Idle
  /\ UNCHANGED <<other, nid, hist>>
Drop(i) ==
  /\ cur = Idle /\ objs[i].w # "none" /\ last' = ""
  /\ socks' = [k \in DOMAIN socks \ objs[i].own |-> socks[k]]
  /\ objs' = [objs EXCEPT ![i] = [w |-> "none", own |-> {}]]
  /\ Op([o |-> "drop", i |-> i - 1, f |-> 0])
  /\ UNCHANGED <<cur, other, nid>>
Foreign(x) ==
  /\ cur = Idle /\ last' = "" /\ x # other
  /\ (x = 2 => \A k \in DOMAIN socks : socks[k].port = 0)
  /\ other' = x
  /\ Op([o |-> "foreign", x |-> x, f |-> 0])
  /\ UNCHANGED <<socks, objs, cur, nid>>
Next == \/ /\ Len(hist) < MaxOps
           /\ \/ \E w \in Pool : Make(w)
              \/ \E i \in 1..Len(objs) : Listen(i) \/ Drop(i)
              \/ \E x \in 0..2 : Foreign(x)
        \/ Step \/ Fail("fault") \/ Fail("refused") \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Step \/ Finish \/ Fail("refused"))

-----------------------------------------------------------------------------
Owned == UNION {objs[i].own : i \in 1..Len(objs)}
(* Nothing is left open, nothing in use is closed. *)
NoLeak == DOMAIN socks = Owned \cup (IF cur # Idle /\ cur.sk # 0 THEN {cur.sk} ELSE {})
(* Whatever lives is set up completely. *)
Complete == \A i \in Live : /\ Cardinality(objs[i].own) = (IF NeedsSocket(objs[i].w) THEN 1 ELSE 0)
                            /\ \A k \in objs[i].own : Fits(socks[k], objs[i].w, <<>>)
(* All listeners coexist, with each other and with others that share the port, and all hear the group. *)
Coexist == \A j, k \in DOMAIN socks : (j # k /\ socks[j].port # 0) => ~Clash(socks[j], {socks[k]} \cup Others)
AllHear == \A i \in Live : objs[i].w \in Listeners => \A k \in objs[i].own : Hears(socks[k])
(* A port is refused only if somebody keeps it for himself. *)
Refused == last = "refused" => other = 2
Independent == [][\A k \in DOMAIN socks : (k \in DOMAIN socks' /\ k # cur.sk) => socks'[k] = socks[k]]_vars
Ends == cur # Idle ~> cur = Idle
Script == [k |-> "socks", ops |-> hist]
PrintScript == (IOEnv.GEN = "1" /\ cur = Idle /\ Len(hist) = MaxOps) => PrintT(<<"SCRIPT", ToJson(Script)>>)
=============================================================================
