----------------------------- MODULE TraceBase -----------------------------
(* Recorded sessions: one JSON object per line, input fields and "ev", the  *)
(* recorded events.  A trace specification starts once per session, consumes *)
(* the events one by one and prints ACCEPT for a session it explains fully.  *)
EXTENDS TLC, Json, IOUtils, Naturals, Sequences

T == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP
DIAG == IOEnv.DIAG = "1"

Has(r, f) == f \in DOMAIN r
Say(s, l, final) == /\ (DIAG => PrintT(<<"AT", s, l>>))
                    /\ (final => PrintT(<<"ACCEPT", s>>))
=============================================================================
