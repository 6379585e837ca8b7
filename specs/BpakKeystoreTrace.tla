-------------------------- MODULE BpakKeystoreTrace --------------------------
EXTENDS BpakKeystore, TLC, Json
VARIABLES tid, l
tvars == <<tid, l>>
Traces == JsonDeserialize("traces.json")
T == Traces[tid]
TraceInit == tid \in 1..Len(Traces) /\ l = 1
\* the caller's check has been asked if there is one and a key came out; the
\* file is not changed
Load(e) == /\ e.a = "load" /\ LoadOK(e.f, e.ks, e.id, e.cb, e.res) = TRUE
           /\ (e.res.ok /\ e.cb # "none") => e.calls >= 1
           /\ e.kept
Get(e) == e.a = "get" /\ GetOK(e.verified, e.ids, e.id, e.ok, e.at) = TRUE
Source(e) == e.a = "source" /\ SourceOK(e.f, e.ok, e.src) = TRUE /\ e.kept
TraceStep == l <= Len(T) /\ l' = l + 1 /\ UNCHANGED tid /\ (Load(T[l]) \/ Get(T[l]) \/ Source(T[l]))
TraceDone == l > Len(T) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceStep \/ TraceDone]_tvars
=============================================================================
