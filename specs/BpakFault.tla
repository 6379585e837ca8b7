----------------------------- MODULE BpakFault -----------------------------
(* Operations that call the outside.  An operation is a sequence of steps, each
   giving an answer (negative: failed).  Once a call to the outside has failed
   or come up short, the operation as a whole has failed; otherwise it succeeds. *)
EXTENDS Integers, Sequences, FiniteSets
Told(rcs) == \E k \in DOMAIN rcs : rcs[k] < 0
Fine(rcs) == \A k \in DOMAIN rcs : rcs[k] >= 0
\* tools: what success promises is the outcome of the undisturbed run
Promise(exit, same) == exit = 0 => same
=============================================================================
