-------------------------- MODULE BpakCompareTrace --------------------------
(* Recorded comparisons: the two packages, the exit status and the report. *)
EXTENDS BpakCompare, Json
VARIABLES tid, l
tvars == <<tid, l>>
I == INSTANCE BpakId
Traces == JsonDeserialize("traces.json")
T == Traces[tid]

Printed(m) == IF Len(m.b) < I!Needs(m.id) THEN <<>> ELSE LET t == I!MetaText(m.id, m.b) IN IF Len(t) < 128 THEN t ELSE <<>>
Texts(mb) == [k \in 1..Len(mb) |-> [n |-> I!NameOf(mb[k].id), d |-> Printed(mb[k])]]
Good(e) == CASE e.a = "compare" ->
                  /\ e.unchanged
                  /\ IF e.readable THEN CompareOK(e.A, e.B, Texts(e.tA), Texts(e.tB), Range(e.known), e.ok, e.r) ELSE ~e.ok
             [] OTHER -> FALSE
TraceInit == tid \in 1..Len(Traces) /\ l = 1
TraceStep == l <= Len(T) /\ (Good(T[l])) = TRUE /\ l' = l + 1 /\ UNCHANGED tid
TraceDone == l > Len(T) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceStep \/ TraceDone]_tvars
=============================================================================
