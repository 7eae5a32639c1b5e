-------------------------------- MODULE Errors --------------------------------
(* Which cause an error has to name: the first defect in reading order.      *)
EXTENDS Decoder, Service

(* Where the name machine got stuck says why. *)
StuckWhy(buf, lim, s) ==
  IF s.pos >= lim THEN "Eof"
  ELSE LET b == At(buf, s.pos) IN
    CASE b \in 1..63 -> "Eof"
      [] b \in 192..255 -> IF s.pos + 2 > lim THEN "Eof" ELSE "PointerLoop"
      [] OTHER -> "InvalidValue"
NameWhy(buf, lim, pos) ==
  LET s == NameRun(buf, lim, NameInit(pos)) IN IF s.st = "ok" THEN "" ELSE StuckWhy(buf, lim, s)

(* An entry that does not decode: its name, or the data ends. *)
EntryWhy(buf, pos) == LET w == NameWhy(buf, Len(buf), pos) IN IF w # "" THEN w ELSE "Eof"
(* Record data that does not decode. *)
IntsNameWhy(buf, lim, pos, cnt) ==
  IF pos + 2 * cnt > lim THEN "Eof" ELSE NameWhy(buf, lim, pos + 2 * cnt)
RecWhy(buf, lim, pos, t) ==
  CASE t \in {TCNAME, TNS, TPTR} -> IntsNameWhy(buf, lim, pos, 0)
    [] t = TMX -> IntsNameWhy(buf, lim, pos, 1)
    [] t = TSRV -> IntsNameWhy(buf, lim, pos, 3)
    [] t = TSOA -> LET m == ReadName(buf, lim, pos)
                       w == IF m.ok THEN NameWhy(buf, lim, m.p) ELSE NameWhy(buf, lim, pos)
                   IN IF w # "" THEN w ELSE "Eof"
    [] OTHER -> "Eof"

(* Text: the first invalid part. *)
PartWhy(p) == IF p = <<>> THEN "InvalidEmptyLabel" ELSE IF Len(p) > MaxLabel THEN "LabelTooLong" ELSE ""
TextWhy(t) ==
  LET p == TextParts(t)
      bad == {i \in 1..Len(p) : PartWhy(p[i]) # ""}
  IN IF bad = {} THEN "" ELSE PartWhy(p[CHOOSE i \in bad : \A j \in bad : i <= j])
(* PTR targets: a component is missing, or else is none of its kind; `k` components precede the service name. *)
PtrWhy(n, k) ==
  IF Len(n) < k + 3 THEN "Eof"
  ELSE IF ~ServiceLabel(n[k + 1]) \/ ~IsTransport(n[k + 2]) THEN "InvalidValue" ELSE ""

(* The category stays recognisable in an I/O error; none looks like a time-out. *)
Causes == {"Eof", "PointerLoop", "InvalidValue", "Truncated", "InvalidEmptyLabel", "LabelTooLong"}
IoKindOk(e, k) ==
  CASE e = "Eof" -> k = "UnexpectedEof"
    [] e \in {"PointerLoop", "InvalidValue"} -> k = "InvalidData"
    [] e \in {"InvalidEmptyLabel", "LabelTooLong"} -> k = "InvalidInput"
    [] OTHER -> k \notin {"TimedOut", "WouldBlock", "Interrupted"}
=============================================================================
