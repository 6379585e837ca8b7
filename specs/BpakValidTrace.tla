------------------------- MODULE BpakValidTrace -------------------------
(* Verdicts of the implementation on candidate headers and files. *)
EXTENDS BpakValid, TLC, Json
VARIABLES tid, l
tvars == <<h, saved, rc, tid, l>>
Traces == JsonDeserialize("traces.json")
T == Traces[tid]
TraceInit == HInit /\ tid \in 1..Len(Traces) /\ l = 1
Act(e) ==
    CASE e.a = "valid" -> AcceptsValid(e.c, e.rc) /\ e.same
      [] e.a = "open" -> OpenOk(e, e.mode, e.rc, e.after)
      [] OTHER -> FALSE
TraceStep == /\ l <= Len(T) /\ Act(T[l]) /\ rc' = T[l].rc /\ l' = l + 1 /\ UNCHANGED <<tid, h, saved>>
TraceDone == l > Len(T) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceStep \/ TraceDone]_tvars
=============================================================================
