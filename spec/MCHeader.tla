------------------------------ MODULE MCHeader ------------------------------
(* Registers against bits: a record of field values, updated one field at a *)
(* time, must always be what the getters read from the header bytes.        *)
EXTENDS Header, TLC, Json, IOUtils
CONSTANTS Flags, Depth
VARIABLES b, reg, hist, init

Vals(f) == IF f = "id" THEN {0, 258, 65535} ELSE IF f \in {"op", "rc"} THEN {0, 5, 10, 15, 16, 255} ELSE {0, 1}
Fields == Range(FieldNames)
Mk(f) == <<1, 2>> \o E16(f) \o <<0, 1, 0, 2, 0, 3, 255, 4>>
Width(f) == FieldAt(f)[3]
Init == \E f \in Flags : /\ b = Mk(f) /\ init = b /\ reg = [x \in Fields |-> GetField(b, x)] /\ hist = <<>>
Set(f, v) == /\ Len(hist) < Depth
             /\ b' = SetField(b, f, v) /\ reg' = [reg EXCEPT ![f] = v % 2^Width(f)]
             /\ hist' = Append(hist, <<f, v>>) /\ init' = init
Next == \E f \in Fields : \E v \in Vals(f) : Set(f, v)
G == HGetters(b)
Agree == /\ \A f \in Fields : GetField(b, f) = reg[f]
         /\ G = <<reg["id"], reg["qr"], 1 - reg["qr"], reg["op"], reg["aa"], reg["tc"], reg["rd"], reg["ra"], reg["rc"], 1, 2, 3, 65284>>
         /\ Slice(b, 4, 12) = Slice(init, 4, 12)
         /\ (HFlags(b) \div 16) % 8 = (HFlags(init) \div 16) % 8
PrintScript == (IOEnv.GEN = "1" /\ Len(hist) = Depth) => PrintT(<<"SCRIPT", ToJson([k |-> "hdr", b |-> init, ops |-> hist])>>)
=============================================================================
