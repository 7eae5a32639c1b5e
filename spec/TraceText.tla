----------------------------- MODULE TraceText -----------------------------
(* Conformance of the parts without wire format or I/O: header registers    *)
(* (C07), labels and names (C08), matching (C09), TXT metadata (C19),        *)
(* service names (C20).  State: the value under test after the last event.   *)
EXTENDS Header, Matching, Txt, Service, TraceBase

VARIABLES s, l, st

Op(i) == T[s].ops[i]

-----------------------------------------------------------------------------
HdrInit(ev) == /\ ev.op = "init" /\ ev.b = T[s].b /\ ev.g = HGetters(ev.b) /\ st' = ev.b
HdrSet(ev) ==
  LET o == Op(l - 1)
      b == SetField(st, o[1], o[2])
  IN /\ ev.op = o[1] /\ ev.b = b /\ ev.g = HGetters(b) /\ st' = b

-----------------------------------------------------------------------------
NameOk(ev, n) ==
  /\ ev.n = n /\ ev.nr = n /\ ev.nv = n /\ ev.eq
  /\ PlainName(n) => ev.rt /\ ev.d = Text(n)
NameStepOk(ev, o) ==
  CASE o.o = "label" -> /\ ev.ok = ValidLabel(o.b) /\ ev.np = ev.ok /\ ev.sp
                        /\ ev.ok => ev.v = o.b /\ (PlainLabel(o.b) => ev.d = o.b)
    [] o.o = "parse" -> ev.ok = TextValid(o.b) /\ ev.same
    [] o.o = "cmp" -> /\ st = o.ns => ev.r
                      /\ ~NameEqCI(st, o.ns) => ~ev.r
    [] OTHER -> TRUE
NameAfter(o) ==
  CASE o.o = "parse" -> IF TextValid(o.b) THEN TextParts(o.b) ELSE st
    [] o.o = "push" -> Append(st, o.b)
    [] o.o = "ext" -> st \o o.ns
    [] o.o = "collect" -> o.ns
    [] OTHER -> st
NameEv(ev) ==
  LET o == Op(l) IN
    /\ ev.op = o.o
    /\ NameStepOk(ev, o) = TRUE
    /\ st' = NameAfter(o)
    /\ (o.o \notin {"label", "cmp"} => NameOk(ev, NameAfter(o))) = TRUE

-----------------------------------------------------------------------------
MatchEv(ev) ==
  /\ ev.q = T[s].q[l]
  /\ ev.hit = SelectSeq(T[s].t, LAMBDA t : IF T[s].w = "c" THEN ClassMatches(ev.q, t) ELSE TypeMatches(ev.q, t))
  /\ st' = st
SmallestFour(x) == LET m == 0..3 IN IF x = Values THEN <<0, 1, 2, 3>>
                   ELSE IF x = {} THEN <<>> ELSE IF Cardinality(x) = 1 THEN <<CHOOSE v \in x : TRUE>> ELSE <<MB, MG, MR>>
MatchAllEv(ev) ==
  LET x == IF T[s].w = "c" THEN ClassesFor(ev.q) ELSE TypesFor(ev.q)
  IN /\ ev.q = T[s].lo + l - 1
     /\ ev.n = Cardinality(x) /\ ev.hit = SmallestFour(x)
     /\ st' = st

-----------------------------------------------------------------------------
(* The text form: "key" or "key=value" for each entry in some order, separated by spaces. *)
Item(x) == x.k \o (IF x.h = 2 THEN <<61>> \o Escape(x.v) ELSE <<>>)
RECURSIVE Joined(_, _, _)
Joined(all, p, i) == IF i > Len(all) THEN <<>> ELSE (IF i = 1 THEN <<>> ELSE <<32>>) \o Item(all[p[i]]) \o Joined(all, p, i + 1)
TxtShown(all, d) ==
  LET n == Len(all) id == [i \in 1..n |-> i] IN
    \/ d = Joined(all, id, 1)
    \/ n \in 2..4 /\ \E p \in {f \in [1..n -> 1..n] : \A i, j \in 1..n : f[i] = f[j] => i = j} : d = Joined(all, p, 1)
    \/ n > 4 /\ Len(d) = Len(Joined(all, id, 1))
TxtEv(ev) ==
  LET o == Op(l)
      m == CASE o.o = "from" -> TxtFrom(o.x) [] o.o = "flag" -> TxtAddFlag(st, o.b) [] OTHER -> st
  IN /\ ev.op = o.o
     /\ Lists(m, ev.all) = TRUE
     /\ ev.empty = (m = {})
     /\ TxtShown(ev.all, ev.d) = TRUE
     /\ (o.o = "get" => [h |-> ev.h, v |-> ev.v] = TxtGet(m, o.b)) = TRUE
     /\ st' = m

-----------------------------------------------------------------------------
SvcText(v) == Escape(v[1]) \o <<Dot>> \o TransportLabel(v[2])
InstText(v) == Escape(v[1]) \o <<Dot>> \o SvcText(<<v[2], v[3]>>)
Shown(ev) == /\ ev.sd = IF ev.sok THEN SvcText(ev.s) ELSE <<>>
             /\ ev.id = IF ev.iok THEN InstText(ev.i) ELSE <<>>
SvcOk(ev, o) ==
  CASE o.o = "ptr" -> /\ ev.sok = PtrIsService(o.n) /\ ev.iok = PtrIsInstance(o.n)
                      /\ ev.sok => ev.s = PtrService(o.n)
                      /\ ev.iok => ev.i = PtrInstance(o.n)
                      /\ Shown(ev)
    [] o.o = "new" -> /\ ev.sok = ServiceLabel(o.s) /\ ev.iok = ServiceLabel(o.s)
                      /\ ev.sok => ev.s = <<o.s, o.t>> /\ ev.i = <<o.i, o.s, o.t>> /\ ev.same
                      /\ Shown(ev)
    [] o.o = "cmp" -> LET same == o.a.s = o.b.s /\ o.a.t = o.b.t IN
                        /\ ev.seq = same
                        /\ ev.ieq = (same /\ o.a.i = o.b.i)
                        /\ ev.ord = ev.ieq /\ ev.anti
    [] o.o = "tr" -> /\ ev.ok = IsTransport(o.b)
                     /\ ev.ok => ev.t = TransportOf(o.b) /\ ev.l = o.b
SvcEv(ev) == ev.op = Op(l).o /\ SvcOk(ev, Op(l)) = TRUE /\ st' = st

-----------------------------------------------------------------------------
Init == s \in 1..Len(T) /\ l = 1 /\ st = IF T[s].k = "txt" THEN {} ELSE <<>>
Next ==
  /\ l <= Len(T[s].ev)
  /\ LET ev == T[s].ev[l]
         k == T[s].k
     IN /\ ~(Has(ev, "op") /\ ev.op \in {"panic", "abort", "hang"})
        /\ CASE k = "hdr" -> IF l = 1 THEN HdrInit(ev) ELSE HdrSet(ev)
             [] k = "name" -> NameEv(ev)
             [] k = "match" -> MatchEv(ev)
             [] k = "matchall" -> MatchAllEv(ev)
             [] k = "txt" -> TxtEv(ev)
             [] k = "svc" -> SvcEv(ev)
  /\ l' = l + 1 /\ s' = s
  /\ Say(s, l, l = Len(T[s].ev))
=============================================================================
