------------------------------- MODULE Bytes -------------------------------
(* Byte strings (sequences over 0..255), big-endian integers, ASCII.        *)
(* 32-bit values do not fit TLC's integers: they are pairs <<high, low>>.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Byte(v) == v % 256
U16(hi, lo) == hi * 256 + lo
E16(v) == <<v \div 256, v % 256>>
E32(p) == E16(p[1]) \o E16(p[2])
Bit(v, n) == (v \div 2^n) % 2 = 1
B2N(b) == IF b THEN 1 ELSE 0

(* The part of b between the 0-based positions p (inclusive) and q (exclusive). *)
Slice(b, p, q) == SubSeq(b, p + 1, q)
At(b, p) == b[p + 1]
At16(b, p) == U16(b[p + 1], b[p + 2])
At32(b, p) == <<At16(b, p), At16(b, p + 2)>>

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))

MapSeq(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]

Lower1(c) == IF c \in 65..90 THEN c + 32 ELSE c
Lower(b) == [i \in 1..Len(b) |-> Lower1(b[i])]
EqCI(a, b) == Len(a) = Len(b) /\ Lower(a) = Lower(b)
Graphic(c) == c \in 33..126

Range(s) == {s[i] : i \in 1..Len(s)}
Count(x, s) == Cardinality({i \in 1..Len(s) : s[i] = x})
Zeros(n) == [i \in 1..n |-> 0]

(* Well-formed UTF-8 (RFC 3629), what Rust's String accepts. *)
Cont(c) == c \in 128..191
RECURSIVE Utf8From(_, _)
Utf8From(b, i) ==
  IF i > Len(b) THEN TRUE
  ELSE LET c == b[i]
           has(n) == i + n <= Len(b)
       IN CASE c < 128 -> Utf8From(b, i + 1)
            [] c \in 194..223 -> has(1) /\ Cont(b[i + 1]) /\ Utf8From(b, i + 2)
            [] c \in 224..239 -> /\ has(2) /\ Cont(b[i + 1]) /\ Cont(b[i + 2])
                                 /\ (c = 224 => b[i + 1] >= 160)
                                 /\ (c = 237 => b[i + 1] <= 159)
                                 /\ Utf8From(b, i + 3)
            [] c \in 240..244 -> /\ has(3) /\ Cont(b[i + 1]) /\ Cont(b[i + 2]) /\ Cont(b[i + 3])
                                 /\ (c = 240 => b[i + 1] >= 144)
                                 /\ (c = 244 => b[i + 1] <= 143)
                                 /\ Utf8From(b, i + 4)
            [] OTHER -> FALSE
IsUtf8(b) == Utf8From(b, 1)
=============================================================================
