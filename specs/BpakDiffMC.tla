---------------------------- MODULE BpakDiffMC ----------------------------
(* A differ that is free to choose any blocks: it walks through the new string,
   takes any number of differences against any readable part of the origin, any
   number of extra bytes, and moves anywhere.  Whatever it chooses, the patch
   it has written so far stands for the part of the new string walked over. *)
EXTENDS BpakPatch, TLC, Json
CONSTANTS Letters, MaxOrigin, MaxNew, MaxBlocks, Emit
VARIABLES O, N, done, pos, P, nb
vars == <<O, N, done, pos, P, nb>>
Enc(n) == IF n < 0 THEN <<128 - n>> ELSE <<n>>       \* NumLen is 1
Strings(k) == UNION {[1..j -> Letters] : j \in 0..k}
Init == O \in Strings(MaxOrigin) /\ N \in Strings(MaxNew) /\ done = 0 /\ pos = 0 /\ P = <<>> /\ nb = 0
Block == /\ done < Len(N) /\ nb < MaxBlocks
         /\ \E d \in 0..(Len(N) - done), x \in 0..(Len(N) - done), to \in 0..Len(O) :
              /\ d + x <= Len(N) - done
              /\ d + x > 0
              /\ pos + d <= Len(O)
              /\ P' = P \o Enc(d) \o Enc(x) \o Enc(to - (pos + d))
                        \o [k \in 1..d |-> (N[done + k] - O[pos + k]) % 256]
                        \o SubSeq(N, done + d + 1, done + d + x)
              /\ done' = done + d + x /\ pos' = to
         /\ nb' = nb + 1 /\ UNCHANGED <<O, N>>
MCSpec == Init /\ [][Block]_vars
Right == LET f == PRun(O, P) IN Complete(f) /\ f.out = SubSeq(N, 1, done) /\ f.op = pos
\* a diff can always be finished
Possible == done < Len(N) => ENABLED Block \/ nb = MaxBlocks
EmitInv == (Emit /\ nb = 0) => PrintT("@@" \o ToJson([o |-> O, n |-> N]))
=============================================================================
