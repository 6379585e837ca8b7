-------------------------- MODULE BpakDecodeTrace --------------------------
(* Recorded sequences of what the decoder did to its output.  Strict: a failed
   call to the outside also has to be reported by the call it happened in. *)
EXTENDS BpakDecode, TLC, Json
CONSTANT Strict
VARIABLES tid, l, good, cur, err, shown
tvars == <<tid, l, good, cur, err, shown>>
Traces == JsonDeserialize("traces.json")
T == Traces[tid]
\* the first event describes the run
Parts == T[1].parts
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ good = {} /\ cur = 0 /\ err = FALSE /\ shown = <<>>
SetOf(s) == {s[k] : k \in DOMAIN s}
Last == l = Len(T) - 1
Begin(e) == e.a = "begin" /\ l = 1 /\ good' = {} /\ cur' = 0 /\ err' = FALSE /\ shown' = [k \in DOMAIN Parts |-> Parts[k].coded]
Call(e) == /\ e.a = "C" /\ ((Strict /\ err) => e.rc < 0) /\ (e.rc # 0 => Last)
           /\ err' = FALSE
           /\ cur' = IF e.step = 2 /\ e.rc = 0 THEN e.part ELSE cur
           \* a part said to be finished is shown as finished
           /\ (e.step = 4 /\ e.rc = 0) => ~shown[e.part]
           /\ UNCHANGED <<good, shown>>
Header(e) == /\ e.a = "H" /\ e.same
             /\ Honest(Parts, good, e.coded)
             /\ \A k \in DOMAIN Parts : e.t[k] = IF e.coded[k] THEN Parts[k].t ELSE 0
             /\ shown' = IF e.fault THEN shown ELSE e.coded
             /\ err' = (err \/ e.fault) /\ UNCHANGED <<good, cur>>
\* a header cut short by a fault
Torn(e) == e.a = "torn" /\ err' = TRUE /\ UNCHANGED <<good, cur, shown>>
Write(e) == /\ e.a = "W" /\ cur # 0
            /\ e.lo >= Parts[cur].lo /\ e.hi <= Parts[cur].hi
            /\ good' = Written(good, e.c1, e.c2, SetOf(e.wrong))
            /\ err' = (err \/ e.fault) /\ UNCHANGED <<cur, shown>>
Read(e) == /\ e.a = "R" /\ cur # 0 /\ e.lo >= 0 /\ e.hi <= Parts[cur].hi
           /\ err' = (err \/ e.fault) /\ UNCHANGED <<good, cur, shown>>
Origin(e) == /\ e.a = "O" /\ cur # 0 /\ e.lo >= Parts[cur].olo /\ e.hi <= Parts[cur].ohi
             /\ err' = (err \/ e.fault) /\ UNCHANGED <<good, cur, shown>>
\* the whole run; nothing went wrong and the package is sound, so it succeeds
End(e) == /\ e.a = "end" /\ (e.must => e.rc = 0) /\ ((Strict /\ e.fault) => e.rc # 0)
          /\ e.rc = 0 => \A k \in DOMAIN Parts : ~shown[k]
          /\ UNCHANGED <<good, cur, err, shown>>
TraceStep == /\ l <= Len(T) /\ l' = l + 1 /\ UNCHANGED tid
             /\ \/ Begin(T[l]) \/ Call(T[l]) \/ Header(T[l]) \/ Torn(T[l]) \/ Write(T[l]) \/ Read(T[l]) \/ Origin(T[l]) \/ End(T[l])
TraceDone == l > Len(T) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceStep \/ TraceDone]_tvars
=============================================================================
