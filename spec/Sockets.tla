-------------------------------- MODULE Sockets --------------------------------
(* The sockets behind the library's objects: what each kind needs, what the   *)
(* operating system allows, what happens when a step of setting up fails.     *)
EXTENDS Integers, Sequences, FiniteSets

MdnsPort == 5353
MdnsGroup == <<224, 0, 0, 251>>

Clients == {"res", "resm4", "resm6", "ares", "aresm4", "aresm6", "dis", "dism4", "adis", "adism4"}
Resolvers == {"res", "resm4", "resm6", "ares", "aresm4", "aresm6"}
Discoverers == Clients \ Resolvers
AsyncKinds == {"ares", "aresm4", "aresm6", "adis", "adism4", "aadv"}
(* Objects that own a listening socket from their creation on; "adv" has one while it listens. *)
Listeners == {"aadv", "raw", "tap"}
Kinds == Clients \cup Listeners \cup {"adv", "plain"}
NeedsSocket(w) == w \in Clients \cup Listeners

(* A socket: fam, port (0: chosen by the system), any (all interfaces), shared (the port may be shared), groups, loop, nb. *)
Family(w, srv) == CASE w \in {"resm4", "aresm4", "dism4", "adism4"} -> 4
                    [] w \in {"resm6", "aresm6"} -> 6
                    [] OTHER -> IF Len(srv) = 18 THEN 6 ELSE 4
FitsClient(x, w, srv) ==
  /\ x.fam = Family(w, srv) /\ x.port = 0 /\ x.any
  /\ x.loop /\ x.nb = (w \in AsyncKinds)
FitsListener(x, w) ==
  /\ x.fam = 4 /\ x.port = MdnsPort /\ x.any /\ x.shared
  /\ MdnsGroup \in x.groups /\ x.loop /\ x.nb = (w \in AsyncKinds)
Fits(x, w, srv) == IF w \in Clients THEN FitsClient(x, w, srv) ELSE FitsListener(x, w)

(* The operating system refuses a port that somebody else has, unless both share it. *)
Clash(x, ys) == \E y \in ys : x.port # 0 /\ y.port = x.port /\ ~(x.shared /\ y.shared)
(* Who hears a datagram sent to the mDNS group. *)
Hears(x) == x.port = MdnsPort /\ x.any /\ MdnsGroup \in x.groups

(* A call that nobody replies to sends its query and waits. *)
Silent(w, set, r, kind, t, sent) ==
  IF w \in Resolvers THEN r = "err" /\ kind \in {"WouldBlock", "TimedOut"} /\ t = set.to /\ sent = <<0>>
  ELSE /\ r = "ok" /\ t = set.dto
       /\ Len(sent) = (set.dto + set.rto - 1) \div set.rto
       /\ \A i \in 1..Len(sent) : sent[i] = (i - 1) * set.rto
Defaults == [to |-> 500, rto |-> 300, dto |-> 1000]
=============================================================================
