--------------------------- MODULE BpakTogetherMC ---------------------------
(* The design: an operation reads pieces of its object into a buffer and works
   them into a sum, with a turn of any object after every one of these steps; the
   answer is the sum, and the object is where the operation left it.  The buffer,
   the sum and the place are the operation's and the object's own.

   Shared = "buffer": one buffer for all; "sum": one running sum; "place": one
   place in the file; "memo": the last answer is remembered and given again where
   the object seems to be at the same place.  TLC refutes each of them. *)
EXTENDS BpakTogether, TLC, Json
CONSTANTS Objects, Ops, Pieces, Shared, Emit
VARIABLES at, did, place, buf, sum, memo, known, pos, good, sched
vars == <<at, did, place, buf, sum, memo, known, pos, good, sched>>
Data(o, p) == 10 * (o + 1) + p
RECURSIVE Total(_, _, _)
Total(o, p, n) == IF n = 0 THEN 0 ELSE Total(o, p, n - 1) * 7 + Data(o, p + n)
Alone(o) == [ans |-> [k \in 1..Ops |-> Total(o, (k - 1) * Pieces, Pieces)], left |-> Ops * Pieces]
Own(what, o) == IF Shared = what THEN 0 ELSE o
Init == /\ at = [o \in Objects |-> "next"] /\ did = [o \in Objects |-> 0] /\ place = [o \in Objects |-> 0]
        /\ buf = [o \in Objects |-> 0] /\ sum = [o \in Objects |-> 0] /\ memo = <<>>
        /\ known = [o \in Objects |-> Alone(o)] /\ pos = [o \in Objects |-> 0] /\ good = TRUE /\ sched = <<>>
Turn(o) == sched' = Append(sched, o)
Over(o) == pos[o] = Ops
Says(o, a) == /\ good' = (good /\ Answers(known, pos, o, a)) /\ pos' = [pos EXCEPT ![o] = @ + 1]
              /\ at' = [at EXCEPT ![o] = "next"]
Begin(o) == /\ at[o] = "next" /\ ~Over(o) /\ Turn(o)
            /\ IF Shared = "memo" /\ memo # <<>> /\ memo[1] = place[o] + Pieces
               THEN Says(o, memo[2]) /\ place' = [place EXCEPT ![o] = @ + Pieces] /\ UNCHANGED <<did, buf, sum, memo, known>>
               ELSE /\ at' = [at EXCEPT ![o] = "read"] /\ did' = [did EXCEPT ![o] = 0] /\ sum' = [sum EXCEPT ![Own("sum", o)] = 0]
                    /\ UNCHANGED <<place, buf, memo, known, pos, good>>
Read(o) == /\ at[o] = "read" /\ Turn(o)
           /\ LET q == Own("place", o) IN place' = [place EXCEPT ![q] = @ + 1] /\ buf' = [buf EXCEPT ![Own("buffer", o)] = Data(o, place[q] + 1)]
           /\ at' = [at EXCEPT ![o] = "work"] /\ UNCHANGED <<did, sum, memo, known, pos, good>>
Work(o) == /\ at[o] = "work" /\ Turn(o)
           /\ LET q == Own("sum", o) IN
              LET t == sum[q] * 7 + buf[Own("buffer", o)] IN
              /\ sum' = [sum EXCEPT ![q] = t] /\ did' = [did EXCEPT ![o] = @ + 1]
              /\ IF did[o] + 1 < Pieces THEN at' = [at EXCEPT ![o] = "read"] /\ UNCHANGED <<memo, pos, good>>
                 ELSE Says(o, t) /\ memo' = <<place[o], t>>
           /\ UNCHANGED <<place, buf, known>>
Next == \E o \in Objects : Begin(o) \/ Read(o) \/ Work(o)
MCSpec == Init /\ [][Next]_vars
Independent == good /\ \A o \in Objects : Over(o) => Leaves(known, pos, o, place[o])
EmitInv == Emit /\ (\A o \in Objects : Over(o)) => PrintT("@@" \o ToJson(sched))
=============================================================================
