------------------------------ MODULE Encoder ------------------------------
(* The message encoder.  Caller's view: a header and a list of entries; each *)
(* entry belongs to a section (0 question .. 3 additional).                  *)
EXTENDS Wire

EncInit == [sec |-> 0, hdr |-> Zeros(HeaderLen), es |-> <<>>]
PlainRec(r) == Rec(r.k, r.i, r.n, r.x)
EncOp(st, op) ==
  CASE op.o = "hdr" -> [st EXCEPT !.hdr = op.b]
    [] op.o = "q" /\ st.sec = 0 ->
         [st EXCEPT !.es = Append(@, [s |-> 0, n |-> op.n, t |-> op.t, c |-> op.c])]
    [] op.o = "rr" /\ st.sec > 0 ->
         [st EXCEPT !.es = Append(@, [s |-> st.sec, n |-> op.n, t |-> TypeOf(op.rec.k), c |-> op.c,
                                      ttl |-> op.ttl, rec |-> PlainRec(op.rec)])]
    [] op.o = "sec" -> [st EXCEPT !.sec = Min(3, @ + 1)]
    [] OTHER -> st
RECURSIVE EncOps(_, _, _)
EncOps(st, ops, i) == IF i > Len(ops) THEN st ELSE EncOps(EncOp(st, ops[i]), ops, i + 1)

EncEntry(e) == IF e.s = 0 THEN EncQuestion(e.n, e.t, e.c) ELSE EncRR(e.n, e.c, e.ttl, e.rec)
RECURSIVE SizeUpTo(_, _)
SizeUpTo(es, k) == IF k = 0 THEN HeaderLen ELSE SizeUpTo(es, k - 1) + Len(EncEntry(es[k]))
InSection(es, sec) == SelectSeq(es, LAMBDA e : e.s = sec)

(* Bits of the flag word other than TC. *)
NoTC(f) == f - 512 * B2N(Bit(f, 9))

(* The complete uncompressed message; tc: whether to set the truncation flag. *)
RECURSIVE EncBody(_, _)
EncBody(es, i) == IF i > Len(es) THEN <<>> ELSE EncEntry(es[i]) \o EncBody(es, i + 1)
EncWhole(hdr, es, tc) ==
  LET c(sec) == Len(InSection(es, sec))
  IN EncHeader(HId(hdr), NoTC(HFlags(hdr)) + 512 * B2N(tc), c(0), c(1), c(2), c(3)) \o EncBody(es, 1)

SameAsAdded(buf, d, e) ==
  /\ d.n = e.n /\ d.t = e.t /\ d.c = e.c
  /\ e.s > 0 => ~d.f /\ d.ttl = e.ttl /\ RecOf(buf, d) = e.rec

(* msg decodes to the header and exactly the first m added entries. *)
DecodesTo(msg, st, m) ==
  LET d == ReadMessage(msg)
      es == SubSeq(st.es, 1, m)
  IN /\ d.ok
     /\ HId(msg) = HId(st.hdr) /\ NoTC(HFlags(msg)) = NoTC(HFlags(st.hdr))
     /\ \A sec \in 0..3 : LET x == InSection(es, sec) IN
          /\ Len(d.s[sec + 1]) = Len(x)
          /\ \A i \in 1..Len(x) : SameAsAdded(msg, d.s[sec + 1][i], x[i])

(* What finishing (r = "ok", "err") or dropping (r = "drop") may leave in a  *)
(* buffer out of cap bytes; len is the reported length.                      *)
EncOutcome(st, cap, r, len, out) ==
  LET all == Len(st.es)
      fits == SizeUpTo(st.es, all) <= cap
      good == CHOOSE k \in 0..all : SizeUpTo(st.es, k) <= cap /\ (k = all \/ SizeUpTo(st.es, k + 1) > cap)
      trunc == HTruncated(out)
  IN /\ Len(out) = cap
     /\ fits => ~trunc
     /\ r \in {"ok", "err", "drop"}
     /\ r = "ok" => ~trunc /\ len \in HeaderLen..cap
     /\ r = "err" => trunc
     /\ IF ~trunc THEN DecodesTo(IF r = "ok" THEN Slice(out, 0, len) ELSE out, st, all)
        ELSE \E m \in good..(all - 1) : DecodesTo(out, st, m)
=============================================================================
