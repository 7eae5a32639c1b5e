------------------------------ MODULE Service ------------------------------
(* Service types <<service, transport>> and instances                       *)
(* <<instance, service, transport>>; transport 0 is _tcp, 1 is _udp.        *)
EXTENDS Names
LTcp == <<95, 116, 99, 112>>
LUdp == <<95, 117, 100, 112>>
TransportLabel(t) == IF t = 0 THEN LTcp ELSE LUdp
IsTransport(l) == l \in {LTcp, LUdp}
TransportOf(l) == IF l = LTcp THEN 0 ELSE 1
ServiceLabel(l) == Len(l) > 0 /\ l[1] = 95

PtrIsService(n) == Len(n) >= 3 /\ ServiceLabel(n[1]) /\ IsTransport(n[2])
PtrService(n) == <<n[1], TransportOf(n[2])>>
PtrIsInstance(n) == Len(n) >= 4 /\ ServiceLabel(n[2]) /\ IsTransport(n[3])
PtrInstance(n) == <<n[1], n[2], TransportOf(n[3])>>

LLocal == <<108, 111, 99, 97, 108>>
Local == <<LLocal>>
MetaService == <<<<95, 115, 101, 114, 118, 105, 99, 101, 115>>, <<95, 100, 110, 115, 45, 115, 100>>, LUdp>>
ServiceName(s, dom) == <<s[1], TransportLabel(s[2])>> \o dom
InstanceName(i, dom) == <<i[1], i[2], TransportLabel(i[3])>> \o dom
=============================================================================
