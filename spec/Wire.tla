-------------------------------- MODULE Wire --------------------------------
(* The DNS wire format: names with compression, header, questions, records. *)
(* Decoding is written position by position, the way RFC 1035 describes it; *)
(* encoding (uncompressed) is written independently of it.                  *)
EXTENDS Names

-----------------------------------------------------------------------------
(* Names: a step machine.                                                   *)
(*   pos    next byte to look at                                            *)
(*   min    start of the current part of the name: pointers must lead before it *)
(*   res    where the message continues (behind the first pointer), or -1   *)
(*   st     "run", "ok" or "err"                                            *)
NameInit(pos) == [pos |-> pos, min |-> pos, res |-> 0 - 1, labels |-> <<>>, st |-> "run"]
NameFail(s) == [s EXCEPT !.st = "err"]

NameStep(buf, lim, s) ==
  IF s.pos >= lim THEN NameFail(s)
  ELSE LET b == At(buf, s.pos) IN
    CASE b = 0 -> [s EXCEPT !.pos = s.pos + 1,
                            !.res = IF s.res < 0 THEN s.pos + 1 ELSE s.res,
                            !.st = "ok"]
      [] b \in 1..63 ->
           IF s.pos + 1 + b > lim THEN NameFail(s)
           ELSE [s EXCEPT !.pos = s.pos + 1 + b,
                          !.labels = Append(s.labels, Slice(buf, s.pos + 1, s.pos + 1 + b))]
      [] b \in 192..255 ->
           IF s.pos + 2 > lim THEN NameFail(s)
           ELSE LET ptr == (b - 192) * 256 + At(buf, s.pos + 1) IN
             IF ptr >= s.min THEN NameFail(s)
             ELSE [s EXCEPT !.pos = ptr, !.min = ptr,
                            !.res = IF s.res < 0 THEN s.pos + 2 ELSE s.res]
      [] OTHER -> NameFail(s)

RECURSIVE NameRun(_, _, _)
NameRun(buf, lim, s) == IF s.st # "run" THEN s ELSE NameRun(buf, lim, NameStep(buf, lim, s))

(* [ok, n, p]: the name at pos and the position at which decoding resumes. *)
ReadName(buf, lim, pos) ==
  LET s == NameRun(buf, lim, NameInit(pos))
  IN IF s.st = "ok" THEN [ok |-> TRUE, n |-> s.labels, p |-> s.res]
     ELSE [ok |-> FALSE, n |-> <<>>, p |-> pos]

-----------------------------------------------------------------------------
(* Header *)
HeaderLen == 12
HId(b) == At16(b, 0)
HFlags(b) == At16(b, 2)
HIsResponse(b) == Bit(HFlags(b), 15)
HOpcode(b) == (HFlags(b) \div 2048) % 16
HAuthority(b) == Bit(HFlags(b), 10)
HTruncated(b) == Bit(HFlags(b), 9)
HRecDesired(b) == Bit(HFlags(b), 8)
HRecAvailable(b) == Bit(HFlags(b), 7)
HRcode(b) == HFlags(b) % 16
(* Entries announced for section 0..3 (question, answer, authority, additional). *)
HCount(b, sec) == At16(b, 4 + 2 * sec)
(* All getters in the order the harness reports them. *)
HGetters(b) == <<HId(b), B2N(HIsResponse(b)), B2N(~HIsResponse(b)), HOpcode(b), B2N(HAuthority(b)),
                 B2N(HTruncated(b)), B2N(HRecDesired(b)), B2N(HRecAvailable(b)), HRcode(b),
                 HCount(b, 0), HCount(b, 1), HCount(b, 2), HCount(b, 3)>>

-----------------------------------------------------------------------------
(* Questions and resource records.  ClassOf/TopBit separate the mDNS bit.   *)
ClassOf(c) == c % 32768
TopBit(c) == c >= 32768
NoEntry == [ok |-> FALSE]

ReadQuestion(buf, pos) ==
  LET r == ReadName(buf, Len(buf), pos) IN
    IF ~r.ok \/ r.p + 4 > Len(buf) THEN NoEntry
    ELSE [ok |-> TRUE, n |-> r.n, t |-> At16(buf, r.p), c |-> ClassOf(At16(buf, r.p + 2)), p |-> r.p + 4]

(* rd, lim: the record data lies at positions rd..lim-1. *)
ReadRR(buf, pos) ==
  LET r == ReadName(buf, Len(buf), pos) IN
    IF ~r.ok \/ r.p + 10 > Len(buf) THEN NoEntry
    ELSE LET raw == At16(buf, r.p + 2)
             len == At16(buf, r.p + 8)
         IN IF r.p + 10 + len > Len(buf) THEN NoEntry
            ELSE [ok |-> TRUE, n |-> r.n, t |-> At16(buf, r.p), c |-> ClassOf(raw), f |-> TopBit(raw),
                  ttl |-> At32(buf, r.p + 4), rd |-> r.p + 10, p |-> r.p + 10 + len]

-----------------------------------------------------------------------------
(* Record data.  A record is [k, i, n, x]: kind, integers, names, strings;  *)
(* 32-bit integers contribute two entries to i.                             *)
TA == 1  TNS == 2  TCNAME == 5  TSOA == 6  TPTR == 12  TMX == 15  TTXT == 16  TAAAA == 28  TSRV == 33
Supported == {TA, TNS, TCNAME, TSOA, TPTR, TMX, TTXT, TAAAA, TSRV}
KindOf(t) == CASE t = TA -> "A" [] t = TNS -> "NS" [] t = TCNAME -> "CNAME" [] t = TSOA -> "SOA"
               [] t = TPTR -> "PTR" [] t = TMX -> "MX" [] t = TTXT -> "TXT" [] t = TAAAA -> "AAAA"
               [] t = TSRV -> "SRV" [] OTHER -> "none"
TypeOf(k) == CASE k = "A" -> TA [] k = "NS" -> TNS [] k = "CNAME" -> TCNAME [] k = "SOA" -> TSOA
               [] k = "PTR" -> TPTR [] k = "MX" -> TMX [] k = "TXT" -> TTXT [] k = "AAAA" -> TAAAA
               [] k = "SRV" -> TSRV [] OTHER -> 0 - 1
Rec(k, i, n, x) == [k |-> k, i |-> i, n |-> n, x |-> x]
NoRec == Rec("none", <<>>, <<>>, <<>>)
BadRec == Rec("err", <<>>, <<>>, <<>>)

RECURSIVE ReadStrings(_, _, _)
(* Character strings up to lim; <<>> with ok = FALSE if the last one is cut off. *)
ReadStrings(buf, lim, pos) ==
  IF pos = lim THEN [ok |-> TRUE, x |-> <<>>]
  ELSE LET l == At(buf, pos) IN
    IF pos + 1 + l > lim THEN [ok |-> FALSE, x |-> <<>>]
    ELSE LET r == ReadStrings(buf, lim, pos + 1 + l)
         IN [ok |-> r.ok, x |-> <<Slice(buf, pos + 1, pos + 1 + l)>> \o r.x]

ReadInts(buf, pos, cnt) == [j \in 1..cnt |-> At16(buf, pos + 2 * (j - 1))]

(* One name behind `cnt` 16-bit integers. *)
ReadIntsName(buf, lim, pos, cnt, k) ==
  IF pos + 2 * cnt > lim THEN BadRec
  ELSE LET r == ReadName(buf, lim, pos + 2 * cnt)
       IN IF r.ok THEN Rec(k, ReadInts(buf, pos, cnt), <<r.n>>, <<>>) ELSE BadRec

DecodeRec(buf, lim, pos, t) ==
  CASE t = TA -> IF pos + 4 > lim THEN BadRec ELSE Rec("A", Slice(buf, pos, pos + 4), <<>>, <<>>)
    [] t = TAAAA -> IF pos + 16 > lim THEN BadRec ELSE Rec("AAAA", Slice(buf, pos, pos + 16), <<>>, <<>>)
    [] t \in {TCNAME, TNS, TPTR} -> ReadIntsName(buf, lim, pos, 0, KindOf(t))
    [] t = TMX -> ReadIntsName(buf, lim, pos, 1, "MX")
    [] t = TSRV -> ReadIntsName(buf, lim, pos, 3, "SRV")
    [] t = TTXT -> LET r == ReadStrings(buf, lim, pos)
                   IN IF r.ok THEN Rec("TXT", <<>>, <<>>, r.x) ELSE BadRec
    [] t = TSOA -> LET m == ReadName(buf, lim, pos) IN
                     IF ~m.ok THEN BadRec
                     ELSE LET r == ReadName(buf, lim, m.p) IN
                       IF ~r.ok \/ r.p + 20 > lim THEN BadRec
                       ELSE Rec("SOA", ReadInts(buf, r.p, 10), <<m.n, r.n>>, <<>>)
    [] OTHER -> NoRec

-----------------------------------------------------------------------------
(* Whole messages *)
RECURSIVE ReadEntries(_, _, _, _)
(* cnt entries of a section from pos: [ok, es, p] (the entries before the first that fails). *)
ReadEntries(buf, sec, cnt, pos) ==
  IF cnt = 0 THEN [ok |-> TRUE, es |-> <<>>, p |-> pos]
  ELSE LET e == IF sec = 0 THEN ReadQuestion(buf, pos) ELSE ReadRR(buf, pos) IN
    IF ~e.ok THEN [ok |-> FALSE, es |-> <<>>, p |-> pos]
    ELSE LET r == ReadEntries(buf, sec, cnt - 1, e.p)
         IN [ok |-> r.ok, es |-> <<e>> \o r.es, p |-> r.p]
RecOf(buf, e) == DecodeRec(buf, e.p, e.rd, e.t)

(* All four sections: [ok, s] with s a sequence of four entry sequences. *)
ReadMessage(buf) ==
  IF Len(buf) < HeaderLen THEN [ok |-> FALSE, s |-> <<<<>>, <<>>, <<>>, <<>>>>]
  ELSE LET q == ReadEntries(buf, 0, HCount(buf, 0), HeaderLen)
           a == IF q.ok THEN ReadEntries(buf, 1, HCount(buf, 1), q.p) ELSE [ok |-> FALSE, es |-> <<>>, p |-> 0]
           n == IF a.ok THEN ReadEntries(buf, 2, HCount(buf, 2), a.p) ELSE [ok |-> FALSE, es |-> <<>>, p |-> 0]
           x == IF n.ok THEN ReadEntries(buf, 3, HCount(buf, 3), n.p) ELSE [ok |-> FALSE, es |-> <<>>, p |-> 0]
       IN [ok |-> x.ok, s |-> <<q.es, a.es, n.es, x.es>>]

-----------------------------------------------------------------------------
(* Uncompressed encoding *)
RECURSIVE EncLabels(_, _)
EncLabels(n, i) == IF i > Len(n) THEN <<0>> ELSE <<Len(n[i])>> \o n[i] \o EncLabels(n, i + 1)
EncName(n) == EncLabels(n, 1)
RECURSIVE EncStrings(_, _)
EncStrings(x, i) == IF i > Len(x) THEN <<>> ELSE <<Len(x[i])>> \o x[i] \o EncStrings(x, i + 1)
RECURSIVE EncInts(_, _)
EncInts(s, i) == IF i > Len(s) THEN <<>> ELSE E16(s[i]) \o EncInts(s, i + 1)

EncRdata(r) ==
  CASE r.k \in {"A", "AAAA"} -> r.i
    [] r.k = "TXT" -> EncStrings(r.x, 1)
    [] r.k = "SOA" -> EncName(r.n[1]) \o EncName(r.n[2]) \o EncInts(r.i, 1)
    [] OTHER -> EncInts(r.i, 1) \o EncName(r.n[1])
EncQuestion(n, t, c) == EncName(n) \o E16(t) \o E16(c)
EncRRRaw(n, t, c, ttl, rd) == EncName(n) \o E16(t) \o E16(c) \o E32(ttl) \o E16(Len(rd)) \o rd
EncRR(n, c, ttl, r) == EncRRRaw(n, TypeOf(r.k), c, ttl, EncRdata(r))
EncHeader(id, flags, cq, ca, cn, cx) == E16(id) \o E16(flags) \o E16(cq) \o E16(ca) \o E16(cn) \o E16(cx)
=============================================================================
