------------------------------ MODULE TraceSocks ------------------------------
(* Conformance of socket handling (sessions of kind "socks"; C25).           *)
(* Every event carries the open sockets, "want": the kind of the injected    *)
(* error ("" if none was injected), "gone": of the error that ends listening.*)
(*   objs   the objects, with their sockets and settings                     *)
(*   open   the open sockets                                                 *)
(*   other  0: nobody else uses the mDNS port, 1: somebody shares it, 2: somebody has it alone *)
EXTENDS Sockets, TraceBase

VARIABLES s, l, st

SetOf(q) == {q[i] : i \in 1..Len(q)}
Rec(x) == [x EXCEPT !.groups = SetOf(@)]
Open(q) == {Rec(q[i]) : i \in 1..Len(q)}
NoObj == [w |-> "none", own |-> {}, set |-> Defaults]
Srv(o) == IF Has(o, "srv") THEN o.srv ELSE <<>>

(* A listening socket is asked for. *)
Taken == st.other = 2
Failed(ev, listens) ==
  /\ ev.r = "err"
  /\ IF ev.want # "" THEN ev.kind = ev.want ELSE listens /\ Taken /\ ev.kind = "AddrInUse"
MkEv(o, ev) ==
  LET now == Open(ev.socks)
      new == now \ st.open
  IN /\ st.open \subseteq now
     /\ IF ev.want # "" \/ (o.w \in Listeners /\ Taken)
        THEN /\ Failed(ev, o.w \in Listeners) /\ new = {}
             /\ st' = [st EXCEPT !.objs = Append(@, NoObj)]
        ELSE /\ ev.r = "ok"
             /\ Cardinality(new) = IF NeedsSocket(o.w) THEN 1 ELSE 0
             /\ (\A x \in new : Fits(x, o.w, Srv(o))) = TRUE
             /\ st' = [st EXCEPT !.objs = Append(@, [w |-> o.w, own |-> new, set |-> Defaults]), !.open = now]
DropEv(o, ev) ==
  LET i == o.i + 1 IN
  /\ ev.r = "ok" /\ Open(ev.socks) = st.open \ st.objs[i].own
  /\ st' = [st EXCEPT !.objs[i] = NoObj, !.open = Open(ev.socks)]
ListenEv(o, ev) ==
  LET i == o.i + 1
      x == st.objs[i]
      live == IF Has(ev, "live") THEN Open(ev.live) ELSE {}
  IN CASE x.w = "adv" ->
            /\ Open(ev.socks) = st.open /\ st' = st
            /\ IF ev.want # "" \/ Taken THEN Failed(ev, TRUE) /\ live = {}
               ELSE /\ ev.r = "err" /\ ev.kind = ev.gone
                    /\ st.open \subseteq live /\ Cardinality(live \ st.open) = 1
                    /\ (\A y \in live \ st.open : Fits(y, "adv", <<>>)) = TRUE
       [] x.w \in {"aadv", "tap"} ->
            /\ ev.r = "err" /\ ev.kind = (IF ev.want # "" THEN ev.want ELSE ev.gone)
            /\ IF x.w = "tap" THEN Open(ev.socks) = st.open \ x.own /\ st' = [st EXCEPT !.objs[i] = NoObj, !.open = Open(ev.socks)]
               ELSE Open(ev.socks) = st.open /\ st' = st
       [] OTHER -> ev.r = "ok" /\ Open(ev.socks) = st.open /\ st' = st
SetEv(o, ev) ==
  LET i == o.i + 1 IN
  /\ Open(ev.socks) = st.open
  /\ IF ev.want # "" THEN ev.r = "err" /\ ev.kind = ev.want
     ELSE ev.r = "ok" \/ o.v = 0
  /\ st' = IF ev.r = "ok" THEN [st EXCEPT !.objs[i].set[o.what] = o.v] ELSE st
CallEv(o, ev) ==
  LET x == st.objs[o.i + 1] IN
  /\ Open(ev.socks) = st.open /\ st' = st
  /\ IF x.w \notin Clients THEN ev.r = "ok"
     ELSE IF ev.want # "" THEN ev.r = "err" /\ ev.kind = ev.want
     ELSE Silent(x.w, x.set, ev.r, ev.kind, ev.t, ev.sent) = TRUE

Init == s \in 1..Len(T) /\ l = 1 /\ st = [objs |-> <<>>, open |-> {}, other |-> 0]
Next ==
  /\ l <= Len(T[s].ev)
  /\ LET ev == T[s].ev[l]
         o == T[s].ops[l]
     IN /\ ev.op = o.o /\ ev.r # "panic"
        /\ CASE o.o = "mk" -> MkEv(o, ev)
             [] o.o = "drop" -> DropEv(o, ev)
             [] o.o = "listen" -> ListenEv(o, ev)
             [] o.o = "set" -> SetEv(o, ev)
             [] o.o = "call" -> CallEv(o, ev)
             [] o.o = "foreign" -> st' = [st EXCEPT !.other = o.x]
             [] OTHER -> FALSE
  /\ l' = l + 1 /\ s' = s
  /\ Say(s, l, l = Len(T[s].ev))
=============================================================================
