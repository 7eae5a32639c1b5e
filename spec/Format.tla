------------------------------- MODULE Format --------------------------------
(* The textual form of messages: the lines the tap logs for a packet.        *)
(* A line is [x, open]: its bytes; open: any text may follow (the description *)
(* of record data that does not decode).                                      *)
EXTENDS Wire

(* The characters of the fixed texts below, by code (the most frequent ones first). *)
Code(c) ==
  CASE c = "e" -> 101 [] c = "t" -> 116 [] c = "n" -> 110 [] c = "o" -> 111 [] c = "A" -> 65 [] c = "I" -> 73 [] c = "r" -> 114 [] c = "s" -> 115
    [] c = "p" -> 112 [] c = "d" -> 100 [] c = "i" -> 105 [] c = "a" -> 97 [] c = "Q" -> 81 [] c = "u" -> 117 [] c = "y" -> 121 [] c = "D" -> 68
    [] c = "N" -> 78 [] c = "S" -> 83 [] c = "E" -> 69 [] c = "R" -> 82 [] c = "T" -> 84 [] c = "l" -> 108 [] c = "c" -> 99 [] c = "C" -> 67
    [] c = "O" -> 79 [] c = "P" -> 80 [] c = "V" -> 86 [] c = "0" -> 48 [] c = "1" -> 49 [] c = "2" -> 50 [] c = "3" -> 51 [] c = " " -> 32
    [] c = "(" -> 40 [] c = "_" -> 95 [] c = "=" -> 61 [] c = "," -> 44 [] c = ":" -> 58 [] c = ")" -> 41 [] c = "4" -> 52 [] c = "5" -> 53
    [] c = "6" -> 54 [] c = "7" -> 55 [] c = "8" -> 56 [] c = "9" -> 57 [] c = "b" -> 98 [] c = "f" -> 102 [] c = "g" -> 103 [] c = "h" -> 104
    [] c = "j" -> 106 [] c = "k" -> 107 [] c = "m" -> 109 [] c = "q" -> 113 [] c = "v" -> 118 [] c = "w" -> 119 [] c = "x" -> 120 [] c = "z" -> 122
    [] c = "B" -> 66 [] c = "F" -> 70 [] c = "G" -> 71 [] c = "H" -> 72 [] c = "J" -> 74 [] c = "K" -> 75 [] c = "L" -> 76 [] c = "M" -> 77
    [] c = "U" -> 85 [] c = "W" -> 87 [] c = "X" -> 88 [] c = "Y" -> 89 [] c = "Z" -> 90
Str(s) == [i \in 1..Len(s) |-> Code(SubSeq(s, i, i))]
Tab == <<9>>

RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
(* A 32-bit number given as a pair of 16-bit halves. *)
RECURSIVE Dec32(_, _)
Dec32(h, l) == IF h = 0 THEN Dec(l)
               ELSE LET r == (h % 10) * 65536 + l IN Dec32(h \div 10, r \div 10) \o <<48 + (r % 10)>>
RECURSIVE HexNum(_)
HexNum(n) == IF n < 16 THEN <<HexDigit(n)>> ELSE HexNum(n \div 16) \o <<HexDigit(n % 16)>>
Hex2(b) == <<HexDigit(b \div 16), HexDigit(b % 16)>>
RECURSIVE Join(_, _, _)
Join(ss, sep, i) == IF i > Len(ss) THEN <<>> ELSE (IF i = 1 THEN <<>> ELSE sep) \o ss[i] \o Join(ss, sep, i + 1)
HexList(b) == <<91>> \o Join([i \in 1..Len(b) |-> Hex2(b[i])], <<44, 32>>, 1) \o <<93>>

(* Symbolic names of codes: <<code, name>>. *)
TypeNames == << <<1, "A">>, <<2, "NS">>, <<3, "MD">>, <<4, "MF">>, <<5, "CNAME">>, <<6, "SOA">>, <<7, "MB">>, <<8, "MG">>, <<9, "MR">>,
  <<10, "NULL">>, <<11, "WKS">>, <<12, "PTR">>, <<13, "HINFO">>, <<14, "MINFO">>, <<15, "MX">>, <<16, "TXT">>, <<17, "RP">>,
  <<18, "AFSDB">>, <<24, "SIG">>, <<25, "KEY">>, <<28, "AAAA">>, <<29, "LOC">>, <<33, "SRV">>, <<35, "NAPTR">>, <<36, "KX">>,
  <<37, "CERT">>, <<39, "DNAME">>, <<42, "APL">>, <<43, "DS">>, <<44, "SSHFP">>, <<45, "IPSECKEY">>, <<46, "RRSIG">>, <<47, "NSEC">>,
  <<48, "DNSKEY">>, <<49, "DHCID">>, <<50, "NSEC3">>, <<51, "NSEC3PARAM">>, <<52, "TLSA">>, <<53, "SMIMEA">>, <<55, "HIP">>,
  <<59, "CDS">>, <<60, "CDNSKEY">>, <<61, "OPENPGPKEY">>, <<62, "CSYNC">>, <<63, "ZONEMD">>, <<64, "SVCB">>, <<65, "HTTPS">>,
  <<108, "EUI48">>, <<109, "EUI64">>, <<249, "TKEY">>, <<250, "TSIG">>, <<256, "URI">>, <<257, "CAA">> >>
QTypeNames == TypeNames \o << <<252, "AXFR">>, <<253, "MAILB">>, <<254, "MAILA">>, <<255, "ALL">> >>
ClassNames == << <<1, "IN">>, <<2, "CS">>, <<3, "CH">>, <<4, "HS">> >>
QClassNames == ClassNames \o << <<255, "ANY">> >>
OpcodeNames == << <<0, "QUERY">>, <<1, "IQUERY">>, <<2, "STATUS">>, <<4, "NOTIFY">>, <<5, "UPDATE">> >>
RcodeNames == << <<0, "NO_ERROR">>, <<1, "FORM_ERR">>, <<2, "SERV_FAIL">>, <<3, "NX_DOMAIN">>, <<4, "NOT_IMP">>, <<5, "REFUSED">>,
  <<6, "YX_DOMAIN">>, <<7, "YX_RR_SET">>, <<8, "NX_RR_SET">>, <<9, "NOT_AUTH">>, <<10, "NOT_ZONE">>, <<11, "DSO_TYPE_NI">> >>
Named(tab, kind, v) == LET m == {i \in 1..Len(tab) : tab[i][1] = v}
                       IN IF m # {} THEN Str(tab[CHOOSE i \in m : TRUE][2])
                          ELSE Str("(unknown ") \o Str(kind) \o Str(": 0x") \o HexNum(v) \o Str(")")

-----------------------------------------------------------------------------
(* Addresses (RFC 5952) *)
Ip4Text(b) == Join([i \in 1..4 |-> Dec(b[i])], <<46>>, 1)
Ip6Text(b) ==
  LET g == [i \in 1..8 |-> U16(b[2 * i - 1], b[2 * i])]
      runs == {<<i, n>> \in (1..8) \X (2..8) : i + n <= 9 /\ \A j \in i..(i + n - 1) : g[j] = 0}
      hex(i, j) == Join([k \in 1..(j - i + 1) |-> HexNum(g[i + k - 1])], <<58>>, 1)
  IN IF (\A j \in 1..5 : g[j] = 0) /\ g[6] = 65535 THEN Str("::ffff:") \o Ip4Text(SubSeq(b, 13, 16))
     ELSE IF runs = {} THEN hex(1, 8)
     ELSE LET z == CHOOSE z \in runs : \A w \in runs : z[2] > w[2] \/ (z[2] = w[2] /\ z[1] <= w[1])
          IN hex(1, z[1] - 1) \o <<58, 58>> \o hex(z[1] + z[2], 8)

RECURSIVE Visible(_)
Visible(b) == IF b = <<>> THEN <<>> ELSE (IF Graphic(Head(b)) THEN <<Head(b)>> ELSE <<239, 191, 189>>) \o Visible(Tail(b))
RecText(r) ==
  CASE r.k = "A" -> Ip4Text(r.i)
    [] r.k = "AAAA" -> Ip6Text(r.i)
    [] r.k \in {"NS", "CNAME", "PTR"} -> Text(r.n[1])
    [] r.k = "MX" -> Dec(r.i[1]) \o <<32>> \o Text(r.n[1])
    [] r.k = "TXT" -> Join([i \in 1..Len(r.x) |-> Visible(r.x[i])], Tab, 1)
    [] r.k = "SRV" -> Dec(r.i[1]) \o Tab \o Dec(r.i[2]) \o Tab \o Dec(r.i[3]) \o Tab \o Text(r.n[1])
    [] r.k = "SOA" -> Text(r.n[1]) \o Tab \o Text(r.n[2]) \o Tab \o Join([j \in 1..5 |-> Dec32(r.i[2 * j - 1], r.i[2 * j])], Tab, 1)

-----------------------------------------------------------------------------
(* Lines *)
Full(x) == [x |-> x, open |-> FALSE]
Prefix(x) == [x |-> x, open |-> TRUE]
HeaderLine(b) ==
  Full(Str(IF HIsResponse(b) THEN "response" ELSE "query") \o Str(" (id=") \o Dec(HId(b))
       \o Str(", op=") \o Named(OpcodeNames, "Opcode", HOpcode(b)) \o Str(", rcode=") \o Named(RcodeNames, "RCode", HRcode(b))
       \o (IF HTruncated(b) THEN Str(", trunc") ELSE <<>>) \o (IF HRecAvailable(b) THEN Str(", RA") ELSE <<>>)
       \o (IF HRecDesired(b) THEN Str(", RD") ELSE <<>>) \o (IF HAuthority(b) THEN Str(", AA") ELSE <<>>) \o Str(")"))
QuestionLine(e) == Full(Str("Q: ") \o Text(e.n) \o Tab \o Named(QClassNames, "QClass", e.c) \o Tab \o Named(QTypeNames, "QType", e.t))
SectionTag(sec) == CASE sec = 1 -> "ANS: " [] sec = 2 -> "AUTH: " [] sec = 3 -> "ADDL: "
RecordLine(b, sec, e) ==
  LET head == Str(SectionTag(sec)) \o Text(e.n) \o Tab \o Dec32(e.ttl[1], e.ttl[2]) \o Tab
              \o Named(ClassNames, "Class", e.c) \o Tab \o Named(TypeNames, "Type", e.t) \o Tab
      r == RecOf(b, e)
  IN CASE r.k = "err" -> Prefix(head)
       [] r.k = "none" -> Full(head \o HexList(Slice(b, e.rd, e.p)))
       [] OTHER -> Full(head \o RecText(r))
RECURSIVE EntryLines(_, _, _, _)
EntryLines(b, es, sec, i) ==
  IF i > Len(es) THEN <<>>
  ELSE <<IF sec = 0 THEN QuestionLine(es[i]) ELSE RecordLine(b, sec, es[i])>> \o EntryLines(b, es, sec, i + 1)
Lines(b) ==
  IF Len(b) < HeaderLen THEN <<>>
  ELSE LET d == ReadMessage(b)
       IN <<HeaderLine(b)>> \o Flatten([j \in 1..4 |-> EntryLines(b, d.s[j], j - 1, 1)])
Matches(line, x) == IF line.open THEN Len(x) > Len(line.x) /\ SubSeq(x, 1, Len(line.x)) = line.x ELSE x = line.x
=============================================================================
