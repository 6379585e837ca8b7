------------------------------ MODULE BpakPlug ------------------------------
(* Hash and key functions of the program's own.  A hash is started, fed,
   finished and let go, in this order: once let go it is not touched any more,
   and every hash that was started is let go.  "I", "U", "F" and "X" are the
   calls; "I!", "U!" and "F!" those the program's functions refused. *)
EXTENDS Integers, Sequences
AfterCall(s, c) ==
    CASE s = "new" /\ c = "I" -> "started"
      [] s = "new" /\ c = "I!" -> "void"
      [] s = "started" /\ c = "U" -> "started"
      [] s = "started" /\ c = "F" -> "finished"
      [] s = "started" /\ c \in {"U!", "F!"} -> "failed"
      [] s \in {"started", "finished", "failed"} /\ c = "X" -> "gone"
      [] OTHER -> "misused"
RECURSIVE Lived(_, _)
Lived(s, calls) == IF calls = <<>> THEN s ELSE Lived(AfterCall(s, Head(calls)), Tail(calls))
\* between operations there is no hash that goes on
Proper(calls) == Lived("new", calls) \in {"gone", "void"}
=============================================================================
