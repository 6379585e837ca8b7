-------------------------- MODULE BpakTogetherTrace --------------------------
(* What was seen of objects, first each alone, then together. *)
EXTENDS BpakTogether, TLC, Json
VARIABLES tid, l, known, pos
Traces == JsonDeserialize("traces.json")
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ known = <<>> /\ pos = <<>>
Seen(e) == Len(known) >= e.o
Step == /\ l <= Len(T) /\ l' = l + 1 /\ UNCHANGED tid
        /\ LET e == T[l] IN
           CASE e.a = "alone" -> e.o = Len(known) + 1 /\ known' = Append(known, [ans |-> e.ans, left |-> e.left]) /\ pos' = Append(pos, 0)
             [] e.a = "answer" -> (Seen(e) /\ Answers(known, pos, e.o, e.is)) = TRUE /\ pos' = [pos EXCEPT ![e.o] = @ + 1] /\ UNCHANGED known
             [] e.a = "left" -> (Seen(e) /\ Leaves(known, pos, e.o, e.is)) = TRUE /\ UNCHANGED <<known, pos>>
             \* once more from the start
             [] e.a = "afresh" -> pos' = [o \in DOMAIN pos |-> 0] /\ UNCHANGED known
             [] OTHER -> FALSE
Done == l > Len(T) /\ UNCHANGED <<tid, l, known, pos>>
TraceSpec == Init /\ [][Step \/ Done]_<<tid, l, known, pos>>
=============================================================================
