---------------------------- MODULE BpakFaultMC ----------------------------
(* The design.  Steps make calls; a buffered write can fail only when the
   buffer is emptied, which happens in a later step or at the closing of the
   file: its result counts too.  Sound without it (Careless) is refuted by TLC. *)
EXTENDS BpakFault, TLC, Json
CONSTANTS MaxSteps, MaxCalls, BufLen, Careless, Emit
VARIABLES prog,     \* calls of each step: "r" read, "w" buffered write, "d" direct write
          step, call, buf, failed, rcs, cur, pc, fault
vars == <<prog, step, call, buf, failed, rcs, cur, pc, fault>>
Progs == UNION {[1..n -> UNION {[1..m -> {"r", "w", "d"}] : m \in 0..MaxCalls}] : n \in 1..MaxSteps}
Init == /\ prog \in Progs /\ step = 1 /\ call = 1 /\ buf = 0 /\ failed = FALSE /\ rcs = <<>> /\ cur = 0 /\ pc = "run"
        /\ fault = [step |-> 0, call |-> 0, kind |-> "none"]
Hit(k) == /\ ~failed /\ failed' = TRUE /\ cur' = -1 /\ fault' = [step |-> step, call |-> call, kind |-> k]
Ok == UNCHANGED <<failed, cur, fault>>
Steps == Len(prog)
Call == /\ pc = "run" /\ step <= Steps /\ call <= Len(prog[step]) /\ cur = 0
        /\ LET c == prog[step][call] IN
           \/ /\ c \in {"r", "d"} /\ (Ok \/ Hit(c)) /\ UNCHANGED buf
           \* a full buffer is emptied first
           \/ /\ c = "w" /\ buf < BufLen /\ Ok /\ buf' = buf + 1
           \/ /\ c = "w" /\ buf = BufLen /\ (Ok \/ Hit("flush")) /\ buf' = 1
        /\ call' = call + 1 /\ UNCHANGED <<prog, step, rcs, pc>>
Answer == /\ pc = "run" /\ step <= Steps /\ (call > Len(prog[step]) \/ cur < 0)
          /\ rcs' = Append(rcs, cur)
          /\ IF cur < 0 THEN pc' = "close" /\ UNCHANGED <<step, call, cur>>
             ELSE step' = step + 1 /\ call' = 1 /\ UNCHANGED <<pc, cur>>
          /\ UNCHANGED <<prog, buf, failed, fault>>
Close == /\ pc = "close" \/ (pc = "run" /\ step > Steps)
         /\ pc' = "done" /\ buf' = 0 /\ UNCHANGED <<prog, step, call>>
         /\ IF buf = 0 \/ failed THEN Ok /\ UNCHANGED rcs
            ELSE \/ Ok /\ UNCHANGED rcs
                 \/ /\ Hit("close") /\ rcs' = IF Careless THEN rcs ELSE Append(rcs, -1)
MCSpec == Init /\ [][Call \/ Answer \/ Close]_vars
Sound == pc = "done" => (failed = Told(rcs) /\ ~failed = Fine(rcs))
\* where in an operation a failure can be: which step of how many, which call of how many
EmitInv == (Emit /\ pc = "done" /\ failed) =>
    PrintT("@@" \o ToJson([steps |-> Steps, step |-> fault.step, calls |-> IF fault.step > Steps THEN 0 ELSE Len(prog[fault.step]), call |-> fault.call, kind |-> fault.kind]))
=============================================================================
