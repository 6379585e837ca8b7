------------------------- MODULE BpakResourceTrace -------------------------
(* Recorded operations with what was held after each of them. *)
EXTENDS BpakResource, TLC, Json
VARIABLES tid, l, open, keys
tvars == <<tid, l, open, keys>>
Traces == JsonDeserialize("traces.json")
T == Traces[tid]
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ open = {} /\ keys = {}
Takers == {"open", "close", "kget", "kfree", "work"}
Saw(e) == [files |-> e.files, maps |-> e.maps, live |-> e.live]
Op(e) == /\ e.a = "op" /\ e.k \in Takers
         /\ (e.foreign = 0 /\ Honest(e.refused, e.ok, e.same, e.kept)) = TRUE
         /\ open' = OpenAfter(open, e) /\ keys' = KeysAfter(keys, e)
         /\ Saw(e) = Held(open', keys')
\* all is let go: nothing remains
Rounds(e) == /\ e.a = "rounds"
             /\ (Steady(e.heap) /\ \A k \in DOMAIN e.left : e.left[k] = 0) = TRUE
             /\ UNCHANGED <<open, keys>>
TraceStep == /\ l <= Len(T) /\ l' = l + 1 /\ UNCHANGED tid
             /\ (Op(T[l]) \/ Rounds(T[l]))
TraceDone == l > Len(T) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceStep \/ TraceDone]_tvars
=============================================================================
