--------------------------- MODULE BpakPackage ---------------------------
(* A package file and the handle an editor has on it. *)
EXTENDS BpakFile

VARIABLES disk,   \* the header on disk, with the contents of its parts
          tail,   \* number of bytes behind the last part
          mem,    \* the header in the handle
          open,   \* is there a handle
          sv      \* a copy of the file kept aside
pvars == <<disk, tail, mem, open, sv>>

PInit == disk = FreshHeader /\ tail = W(0) /\ mem = FreshHeader /\ open = FALSE
         /\ sv = [d |-> FreshHeader, t |-> W(0)]

Open == ~open /\ open' = TRUE /\ mem' = disk /\ UNCHANGED <<disk, tail, sv>>
Close == open' = FALSE /\ UNCHANGED <<disk, tail, mem, sv>>
\* an editing operation goes to the file at once; deletion cuts off what is
\* behind the last part, an added part takes the place of what was there
Edit(res, cut) ==
    /\ open
    /\ mem' = res.h
    /\ disk' = IF res.ok THEN res.h ELSE disk
    /\ tail' = IF ~res.ok \/ tail = W(0) THEN tail
               ELSE IF cut THEN W(0)
               ELSE WMinus(tail, WMinus(FileEnd(res.h), FileEnd(mem)))
    /\ UNCHANGED <<open, sv>>
\* only the header in the handle changes
DigestSize(k) == CASE k = 1 -> 32 [] k = 2 -> 48 [] OTHER -> 64
Recompute == open /\ mem' = Hashed(mem) /\ UNCHANGED <<disk, tail, open, sv>>
Look == open /\ UNCHANGED pvars
Keep == sv' = [d |-> disk, t |-> tail] /\ UNCHANGED <<disk, tail, mem, open>>
Bring == ~open /\ disk' = sv.d /\ tail' = sv.t /\ UNCHANGED <<mem, open, sv>>

=============================================================================
