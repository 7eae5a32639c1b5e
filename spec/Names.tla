------------------------------- MODULE Names -------------------------------
(* Labels and domain names: a name is a sequence of labels, a label a byte  *)
(* string.  Text forms are byte strings, too.                               *)
EXTENDS Bytes

MaxLabel == 63
ValidLabel(b) == Len(b) \in 1..MaxLabel
ValidName(n) == \A i \in 1..Len(n) : ValidLabel(n[i])
NameEqCI(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : EqCI(a[i], b[i])

Dot == 46

(* Text to name.  The parts between the dots; one trailing dot is dropped. *)
RECURSIVE SplitDots(_, _, _)
SplitDots(t, i, cur) ==
  IF i > Len(t) THEN <<cur>>
  ELSE IF t[i] = Dot THEN <<cur>> \o SplitDots(t, i + 1, <<>>)
  ELSE SplitDots(t, i + 1, Append(cur, t[i]))

TextParts(t) ==
  IF t = <<>> \/ t = <<Dot>> THEN <<>>
  ELSE LET p == SplitDots(t, 1, <<>>)
       IN IF p[Len(p)] = <<>> THEN SubSeq(p, 1, Len(p) - 1) ELSE p
TextValid(t) == ValidName(TextParts(t))

(* Name to text: escaped labels, each followed by a dot. *)
HexDigit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
Escape1(c) ==
  CASE c = 9 -> <<92, 116>>  [] c = 10 -> <<92, 110>>  [] c = 13 -> <<92, 114>>
    [] c = 34 -> <<92, 34>>  [] c = 39 -> <<92, 39>>   [] c = 92 -> <<92, 92>>
    [] c \in 32..126 /\ c \notin {34, 39, 92} -> <<c>>
    [] OTHER -> <<92, 120, HexDigit(c \div 16), HexDigit(c % 16)>>
RECURSIVE EscapeFrom(_, _)
EscapeFrom(b, i) == IF i > Len(b) THEN <<>> ELSE Escape1(b[i]) \o EscapeFrom(b, i + 1)
Escape(b) == EscapeFrom(b, 1)
RECURSIVE TextFrom(_, _)
TextFrom(n, i) == IF i > Len(n) THEN <<>> ELSE Escape(n[i]) \o <<Dot>> \o TextFrom(n, i + 1)
Text(n) == IF n = <<>> THEN <<Dot>> ELSE TextFrom(n, 1)

(* Names for which the text form must parse back. *)
PlainLabel(b) == ValidLabel(b) /\ \A i \in 1..Len(b) : b[i] \in 32..126 \ {34, 39, 46, 92}
PlainName(n) == \A i \in 1..Len(n) : PlainLabel(n[i])
=============================================================================
