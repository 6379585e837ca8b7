----------------------------- MODULE BpakIdTrace -----------------------------
EXTENDS BpakId, TLC, Json
VARIABLES tid, l
tvars == <<tid, l>>
Traces == JsonDeserialize("traces.json")
T == Traces[tid]
TraceInit == tid \in 1..Len(Traces) /\ l = 1
\* no text ever reaches behind its buffer
Step(e) ==
  \/ e.a = "id" /\ e.got = Id(e.name)
  \/ e.a = "crc" /\ e.got = Crc(e.start, e.s)
  \/ e.a = "tree" /\ e.got = TreeId(e.id)
  \/ e.a = "treename" /\ e.got = Id(e.name \o Suffix)
  \/ e.a = "find" /\ e.got = DataOf(e.parts, e.q)
  \/ e.a = "idstr" /\ e.got = NameOf(e.id)
  \/ e.a = "hex" /\ e.r.intact /\ HexOK(e.s, e.n, e.r)
  \/ e.a = "uuid" /\ e.r.intact /\ UuidOK(e.s, e.n, e.r)
  \/ e.a = "meta" /\ e.r.intact /\ MetaOK(e.id, e.s, e.n, e.r)
TraceStep == l <= Len(T) /\ l' = l + 1 /\ UNCHANGED tid /\ Step(T[l]) = TRUE
TraceDone == l > Len(T) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceStep \/ TraceDone]_tvars
=============================================================================
