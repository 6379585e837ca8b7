------------------------- MODULE BpakVerifyTrace -------------------------
(* Verdicts of bpak_verify_payload on recorded packages. *)
EXTENDS BpakVerify, TLC, Json
VARIABLES tid, l
tvars == <<tid, l>>
Traces == JsonDeserialize("traces.json")
T == Traces[tid]
TraceInit == tid \in 1..Len(Traces) /\ l = 1
HashOf(F, b) == LET S == {k \in DOMAIN F : F[k][1] = b} IN IF S = {} THEN 0 - 1 ELSE F[CHOOSE k \in S : TRUE][2]
Act(e) == CASE e.a = "vpay" -> e.ok = Accept(e.phok, e.ps) /\ e.same
            [] OTHER -> FALSE
TraceStep == /\ l <= Len(T) /\ (Act(T[l])) = TRUE /\ l' = l + 1 /\ UNCHANGED tid
TraceDone == l > Len(T) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceStep \/ TraceDone]_tvars
=============================================================================
