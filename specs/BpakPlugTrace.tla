--------------------------- MODULE BpakPlugTrace ---------------------------
(* Recorded operations with the program's own functions, one call of which may
   be refused, or with none of some functions: what is held is as ever, hashes
   live properly, and a refusal is told. *)
EXTENDS BpakResourceTrace, BpakPlug
\* a hash tree that lost a piece and was fed on is not finished: the hash of the block it is in goes on
Broken == T[l].op = "mfin" /\ ~T[l].ok /\ \E j \in 1..(l - 1) : T[j].a = "op" /\ T[j].op = "mfeed" /\ ~T[j].ok
Lives(e) == LET on == {k \in DOMAIN e.lives : Lived("new", e.lives[k]) = "started"} IN
            /\ \A k \in DOMAIN e.lives \ on : Proper(e.lives[k])
            /\ on # {} => Broken /\ \A j, k \in on : j = k
PlugStep == /\ l <= Len(T) /\ l' = l + 1 /\ UNCHANGED tid
            /\ Op(T[l])
            /\ Lives(T[l]) = TRUE
PlugSpec == TraceInit /\ [][PlugStep \/ TraceDone]_tvars
=============================================================================
