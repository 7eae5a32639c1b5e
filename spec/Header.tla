------------------------------- MODULE Header -------------------------------
(* The 12-byte header as a register file: named fields with their position   *)
(* in the bytes (RFC 1035, 4.1.1), and the setters.                          *)
EXTENDS Wire

(* field -> <<word, lowest bit, width>>; word 0 is the id, 1 the flags.     *)
FieldNames == <<"id", "qr", "op", "aa", "tc", "rd", "ra", "rc">>
FieldAt(f) == CASE f = "id" -> <<0, 0, 16>> [] f = "qr" -> <<1, 15, 1>> [] f = "op" -> <<1, 11, 4>>
                [] f = "aa" -> <<1, 10, 1>> [] f = "tc" -> <<1, 9, 1>>  [] f = "rd" -> <<1, 8, 1>>
                [] f = "ra" -> <<1, 7, 1>>  [] f = "rc" -> <<1, 0, 4>>
Word(b, w) == At16(b, 2 * w)
GetField(b, f) == LET a == FieldAt(f) IN (Word(b, a[1]) \div 2^a[2]) % 2^a[3]
SetField(b, f, v) ==
  LET a == FieldAt(f)
      w == Word(b, a[1])
      new == w + ((v % 2^a[3]) - GetField(b, f)) * 2^a[2]
  IN [b EXCEPT ![2 * a[1] + 1] = new \div 256, ![2 * a[1] + 2] = new % 256]
=============================================================================
