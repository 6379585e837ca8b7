------------------------ MODULE BpakPlugPackageTrace ------------------------
(* Histories of package files as in BpakPackageTrace, where digests, signatures
   and keys are those of the program's own functions. *)
EXTENDS BpakPackageTrace, BpakPlug
(* a request was refused: the operation fails and nothing changes; as ever the
   handle may have the current payload hash already *)
Declined(e) ==
    /\ ~Ok(e) /\ UNCHANGED ledger
    /\ IF e.a = "vfile"
       THEN /\ ~open /\ UNCHANGED <<mem, open, sv>>
            /\ IF Has(e, "disk") THEN disk' = FromProj(e.disk) /\ tail' = e.disk.tail ELSE UNCHANGED <<disk, tail>>
       ELSE IF open /\ Has(e, "memph") /\ e.memph = e.hf.v THEN Recompute ELSE UNCHANGED <<disk, tail, mem, open, sv>>
PlugAct(e) == IF e.declined > 0 THEN Declined(e) ELSE Act(e)
PlugStep ==
    /\ l <= Len(T)
    /\ LET e == T[l] IN PlugAct(e) /\ Obs(e) /\ \A k \in DOMAIN e.lives : Proper(e.lives[k])
    /\ l' = l + 1
    /\ UNCHANGED tid
PlugSpec == TraceInit /\ [][PlugStep \/ TraceDone]_tvars
=============================================================================
