--------------------------- MODULE BpakFaultTrace ---------------------------
(* Recorded operations: first undisturbed, then with one failure at a time. *)
EXTENDS BpakFault, TLC, Json
VARIABLES tid, l, calls, seen
tvars == <<tid, l, calls, seen>>
Traces == JsonDeserialize("traces.json")
T == Traces[tid]
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ calls = 0 /\ seen = {}
\* nothing fails: the operation succeeds with the result it is to have
Clean(e) == e.a = "clean" /\ (Fine(e.rcs) /\ e.out = e.want) = TRUE /\ calls' = e.calls /\ seen' = {}
\* the k-th call fails (all: that and all later ones); what is handed out with success all the same is right
Fault(e) == /\ e.a = "fault" /\ e.k \in 1..calls /\ ((e.hit => Told(e.rcs)) /\ \A j \in DOMAIN e.got : e.got[j] = e.want) = TRUE
            /\ seen' = seen \cup {e.k} /\ UNCHANGED calls
\* all calls have been tried where that was promised
All(e) == e.a = "all" /\ (e.every => seen = 1..calls) /\ UNCHANGED <<calls, seen>>
\* a tool; killed tools promise nothing, but must not be killed by a failing call
Tool(e) == e.a = "tool" /\ e.exit = 0 /\ UNCHANGED <<calls, seen>>
Disturbed(e) == e.a = "disturbed" /\ (~e.killed /\ Promise(e.exit, e.same)) = TRUE /\ UNCHANGED <<calls, seen>>
\* room for everything there is to write
Roomy(e) == e.a = "roomy" /\ (e.exit = 0 /\ e.same) = TRUE /\ UNCHANGED <<calls, seen>>
TraceStep == /\ l <= Len(T) /\ l' = l + 1 /\ UNCHANGED tid
             /\ (Clean(T[l]) \/ Fault(T[l]) \/ All(T[l]) \/ Tool(T[l]) \/ Disturbed(T[l]) \/ Roomy(T[l]))
TraceDone == l > Len(T) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceStep \/ TraceDone]_tvars
=============================================================================
