------------------------ MODULE BpakPackageTrace ------------------------
(* Recorded editing, signing and verification histories of package files.
   After every operation (unless it is marked blind) the event tells what
   the file and the header in the handle are; both must be what the
   specification says. *)
EXTENDS BpakPackage, Json
VARIABLES tid, l,
          seen,    \* the file as last observed
          seent,   \* bytes behind the last part, as last observed
          ledger   \* signatures made so far
tvars == <<disk, tail, mem, open, sv, tid, l, seen, seent, ledger>>

Traces == JsonDeserialize("traces.json")
T == Traces[tid]
Has(e, f) == f \in DOMAIN e

(* an observed file: tables with the offsets they imply *)
LayoutOK(q, a) ==
    /\ OffsetsOK(q)
    \* padding is zero, unless somebody else changed it
    /\ \A k \in 1..Len(q.p) : q.p[k].z \/ a = "load" \/ \E j \in 1..Len(disk.p) : disk.p[j].c = q.p[k].c

Obs(e) ==
    IF Has(e, "blind") \/ e.a = "short" THEN UNCHANGED <<seen, seent>>
    ELSE /\ ~Has(e, "memodd")
         /\ IF Has(e, "disk") THEN (e.a = "vfile" \/ LayoutOK(e.disk, e.a)) = TRUE /\ seen' = FromProj(e.disk) /\ seent' = e.disk.tail
            ELSE UNCHANGED <<seen, seent>>
         \* the rest of the payload hash field is not judged where the hash kind is changed
         /\ IF Has(e, "anypr") THEN [Norm(disk', e) EXCEPT !.pr = ""] = [seen' EXCEPT !.pr = ""]
            ELSE Norm(disk', e) = seen'
         /\ tail' = seent'
         /\ open' => Norm(mem', e) = (IF Has(e, "memph") THEN [seen' EXCEPT !.ph = <<"v", e.memph>>] ELSE seen')

Ok(e) == e.rc = 0
Op(e, res, cut) ==
    /\ Ok(e) = res.ok
    /\ Edit(res, cut)
    /\ UNCHANGED ledger
Query(e) == Look /\ UNCHANGED ledger

AnyPr(res, e) == IF Has(e, "anypr") /\ res.ok /\ Has(e, "disk") THEN [res EXCEPT !.h.pr = e.disk.pr] ELSE res

TreeIdOf(e) == [x \in {e.tids[k][1] : k \in 1..Len(e.tids)} |->
                   e.tids[CHOOSE k \in 1..Len(e.tids) : e.tids[k][1] = x][2]]

AcceptsOn(hd, dk, e) ==
    LET F == {e.mf[k] : k \in 1..Len(e.mf)} IN
    /\ SignedBy(ledger, hd.sg, e.key, e.hd)
    /\ e.hf.k = HashKey(dk)
    /\ PhVal(hd.ph, e) = e.hf.v
    /\ TreesGood(hd, F, LAMBDA i : TreeIdOf(e)[i])
Accepts(e) == AcceptsOn(mem, disk, e)

Act(e) ==
    CASE e.a = "load" ->    \* put there from outside
            /\ ~open
            /\ LayoutOK(e.disk, e.a) = TRUE
            /\ disk' = FromProj(e.disk) /\ tail' = e.disk.tail
            /\ UNCHANGED <<mem, open, sv, ledger>>
      [] e.a = "open" -> Ok(e) /\ Open /\ UNCHANGED ledger
      [] e.a = "create" ->  \* opening an absent file for writing
            /\ Ok(e) /\ ~open /\ open' = TRUE /\ mem' = FreshHeader /\ disk' = FreshHeader /\ tail' = W(0)
            /\ UNCHANGED <<sv, ledger>>
      [] e.a = "close" -> Close /\ UNCHANGED ledger
      [] e.a = "keep" -> Keep /\ UNCHANGED ledger
      [] e.a = "bring" -> Bring /\ UNCHANGED ledger
      [] e.a = "addfile" -> Op(e, IF e.there THEN AddFileRes(mem, e.i, e.s, e.c, e.f) ELSE Refused(mem), FALSE)
      [] e.a = "addkey" -> Op(e, IF e.there THEN AddFileRes(mem, e.i, e.s, e.c, e.f) ELSE Refused(mem), FALSE)
      [] e.a = "addmerkle" -> Op(e, IF e.there THEN AddMerkleRes(mem, e.i, e.ti, e.s, e.c, e.f, e.g)
                                    ELSE Refused(mem), FALSE)
      [] e.a = "pdelpart" -> Op(e, DeletePartRes(mem, e.i, e.rm), TRUE)
      [] e.a = "delall" -> Op(e, DeleteAllRes(mem, e.rm), TRUE)
      [] e.a = "paddmeta" -> Op(e, SetMetaRes(mem, e.i, e.r, e.s, e.d), FALSE)
      [] e.a = "pdelmeta" -> Op(e, UnsetMetaRes(mem, e.i, e.r), FALSE)
      [] e.a = "pset" -> Op(e, AnyPr(SetFieldRes(mem, e.f, e.v), e), FALSE)
      [] e.a = "rawsig" -> Op(e, InstallSigRes(mem, e.sg), FALSE)
      [] e.a = "takesig" -> Op(e, TakeSigRes(mem, e.room), FALSE) /\ (Ok(e) => e.out = mem.sg)
      [] e.a = "sign" ->
            LET res == IF e.able THEN SignRes(mem, e.sg) ELSE Refused(mem) IN
            /\ Ok(e) = res.ok
            \* without a usable key nothing is written; the handle may have the current payload hash already
            /\ IF res.ok THEN Edit(res, FALSE)
               ELSE IF Has(e, "memph") /\ e.memph = e.hf.v THEN Recompute ELSE Look
            \* what was made is a signature of this header outside of the library, too
            /\ e.able => e.sg[1] \in 1..512 /\ e.ext
            /\ ledger' = IF e.able THEN ledger \cup {[sg |-> e.sg, key |-> e.key, hd |-> e.hd]} ELSE ledger
      [] e.a = "extsign" -> \* somebody signs the digest outside
            Look /\ ledger' = ledger \cup {[sg |-> e.sg, key |-> e.key, hd |-> e.hd]}
      [] e.a = "updhash" ->
            /\ Ok(e) = (e.room >= DigestSize(mem.hk))
            /\ Ok(e) => e.dg = e.hdf
            \* without room for the digest, the payload hash may be current already
            /\ IF Ok(e) \/ e.now = e.hf.v THEN Recompute ELSE Look
            /\ UNCHANGED ledger
      [] e.a = "extract" ->
            LET K == PartIdx(mem.p, e.i) IN
            /\ Ok(e) = (K # {} /\ ~Has(e, "nofile"))
            /\ Query(e)
            /\ Ok(e) => e.c = mem.p[First(K)].c /\ e.sz = StoredSizeNoPad(mem.p[First(K)])
            /\ K = {} => ~e.made
      [] e.a = "psha" ->
            LET K == PartIdx(mem.p, e.i) IN
            /\ Ok(e) = (K # {} /\ e.room >= 32)
            /\ Query(e)
            /\ Ok(e) => e.c = mem.p[First(K)].c
      [] e.a = "psize" -> Query(e) /\ e.size = FileEnd(mem) /\ e.inst = InstalledSize(mem)
      [] e.a = "verify" -> Query(e) /\ Ok(e) = (e.keyok /\ Accepts(e))
      [] e.a = "short" -> ~open /\ ~Ok(e) /\ UNCHANGED <<disk, tail, mem, open, sv, ledger>>  \* cut inside the header
      [] e.a = "vfile" ->   \* somebody changes the file, then it is opened, verified and closed again
            /\ ~open
            /\ IF Has(e, "disk") THEN disk' = FromProj(e.disk) /\ tail' = e.disk.tail ELSE UNCHANGED <<disk, tail>>
            /\ Ok(e) = (e.keyok /\ e.whole /\ AcceptsOn(disk', disk', e))
            /\ UNCHANGED <<mem, open, sv, ledger>>
      [] OTHER -> FALSE

TraceInit == PInit /\ tid \in 1..Len(Traces) /\ l = 1 /\ ledger = {}
             /\ seen = [FreshHeader EXCEPT !.ph = <<"v", "">>] /\ seent = W(0)
TraceStep ==
    /\ l <= Len(T)
    /\ LET e == T[l] IN Act(e) /\ Obs(e)
    /\ l' = l + 1
    /\ UNCHANGED tid
TraceDone == l > Len(T) /\ UNCHANGED tvars
TraceNext == TraceStep \/ TraceDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
