------------------------ MODULE BpakPythonTrace ------------------------
(* Recorded programs against the Python module.  After every statement the
   event has the file, and what the package object answers. *)
EXTENDS BpakPackageTrace, BpakPython

Held(o) == o \in DOMAIN objs
Key(o) == objs[o]
\* an editing statement; one that is refused, or on a package that is only
\* read, raises and changes nothing
PyEdit(e, res) == mode = "rw" /\ Op(e, res, FALSE)
MKey(i, r) == [k |-> "m", i |-> i, r |-> r]
PKey(i) == [k |-> "p", i |-> i, r |-> NOID]
\* the statement gives variable e.o an object, or the variable has none
Gives(e, k) == objs' = (IF Ok(e) THEN Bind(e.o, k) ELSE Unbind({e.o})) /\ UNCHANGED mode

PyAct(e) ==
    CASE e.a = "noobj" -> ~Held(e.o) /\ UNCHANGED yvars /\ UNCHANGED ledger
      [] e.a = "mknone" -> \* a statement that could not be carried out because its package is gone
            ~open /\ UNCHANGED yvars /\ UNCHANGED ledger
      [] e.a = "pyopen" ->
            /\ ~open
            /\ Ok(e) = e.good
            /\ IF Ok(e) THEN open' = TRUE /\ mem' = disk /\ mode' = e.mode ELSE UNCHANGED <<open, mem, mode>>
            /\ objs' = <<>>
            /\ UNCHANGED <<disk, tail, sv, ledger>>
      \* __init__ once more: the file held so far is let go
      [] e.a = "reinit" ->
            /\ Ok(e) = e.good
            /\ IF Ok(e) THEN open' = TRUE /\ mem' = disk /\ mode' = e.mode
               ELSE open' = FALSE /\ mode' = "none" /\ UNCHANGED mem
            /\ UNCHANGED <<disk, tail, sv, objs, ledger>>
      [] e.a = "pycreate" ->
            /\ Ok(e) /\ ~open /\ open' = TRUE /\ mem' = FreshHeader /\ disk' = FreshHeader /\ tail' = W(0) /\ mode' = "rw"
            /\ objs' = <<>>
            /\ UNCHANGED <<sv, ledger>>
      [] e.a = "pyclose" -> Ok(e) /\ Close /\ mode' = "none" /\ UNCHANGED <<objs, ledger>>
      \* all references are let go; the file is closed with the last one
      [] e.a = "drop" ->
            /\ Close /\ mode' = "none" /\ objs' = Unbind({e.vars[k] : k \in 1..Len(e.vars)}) /\ UNCHANGED ledger
            /\ e.fds = 0
      \* the reference to the package (e.vars empty) or to objects is let go: the
      \* file stays open as long as there is an object of it
      [] e.a = "letgo" ->
            LET rest == Unbind({e.vars[k] : k \in 1..Len(e.vars)}) IN
            /\ objs' = rest /\ UNCHANGED ledger
            /\ IF DOMAIN rest = {} THEN Close /\ mode' = "none" ELSE UNCHANGED <<disk, tail, mem, open, sv, mode>>
            /\ e.fds = (IF open' THEN 1 ELSE 0)
      \* a statement that would change something, on a package opened for reading
      [] e.a = "ro" -> open /\ mode = "r" /\ ~Ok(e) /\ UNCHANGED yvars /\ UNCHANGED ledger
      \* any statement on a closed package
      [] e.a = "shut" -> ~open /\ (e.edit => ~Ok(e)) /\ UNCHANGED yvars /\ UNCHANGED ledger
      \* a statement whose argument no package could take
      [] e.a = "misuse" -> ~Ok(e) /\ UNCHANGED yvars /\ UNCHANGED ledger
      [] e.a = "addto" ->
            /\ PyEdit(e, IF ~e.there THEN Refused(mem)
                         ELSE IF e.tree THEN AddMerkleRes(mem, e.i, e.ti, e.s, e.c, 0, e.g)
                         ELSE AddFileRes(mem, e.i, e.s, e.c, 0))
            /\ Gives(e, PKey(e.i))
      [] e.a = "addmeta" ->
            /\ PyEdit(e, IF e.fits THEN PyAddMeta(mem, e.i, e.r, e.b, e.text, e.size) ELSE Refused(mem))
            /\ Gives(e, MKey(e.i, e.r))
      [] e.a = "getm" -> Query(e) /\ Ok(e) = (MetaIdx(mem.m, e.i, e.r) # {}) /\ Gives(e, MKey(e.i, e.r))
      [] e.a = "getp" -> Query(e) /\ Ok(e) = (PartIdx(mem.p, e.i) # {}) /\ Gives(e, PKey(e.i))
      [] e.a = "listm" -> Query(e) /\ Ok(e) = (e.n <= Len(mem.m))
            /\ Gives(e, IF e.n <= Len(mem.m) THEN MKey(mem.m[e.n].i, mem.m[e.n].r) ELSE MKey(NOID, NOID))
      [] e.a = "listp" -> Query(e) /\ Ok(e) = (e.n <= Len(mem.p))
            /\ Gives(e, IF e.n <= Len(mem.p) THEN PKey(mem.p[e.n].i) ELSE PKey(NOID))
      [] e.a = "mid" -> \* meta.id = v
            LET k == Key(e.o) IN
            /\ PyEdit(e, IF e.fits THEN PyMetaKey(mem, k.i, k.r, e.v, k.r) ELSE Refused(mem))
            /\ objs' = (IF Ok(e) THEN Bind(e.o, MKey(e.v, k.r)) ELSE objs) /\ UNCHANGED mode
      [] e.a = "mref" -> \* meta.part_id_ref = v
            LET k == Key(e.o) IN
            /\ PyEdit(e, IF e.fits THEN PyMetaKey(mem, k.i, k.r, k.i, e.v) ELSE Refused(mem))
            /\ objs' = (IF Ok(e) THEN Bind(e.o, MKey(k.i, e.v)) ELSE objs) /\ UNCHANGED mode
      [] e.a = "mraw" -> LET k == Key(e.o) IN
            PyEdit(e, IF e.fits THEN PySetRaw(mem, k.i, k.r, e.b, e.text) ELSE Refused(mem)) /\ KeepObjs
      [] e.a = "pid" -> \* part.id = v
            LET k == Key(e.o) IN
            /\ PyEdit(e, IF e.fits THEN PyPartKey(mem, k.i, e.v) ELSE Refused(mem))
            /\ objs' = (IF Ok(e) THEN Bind(e.o, PKey(e.v)) ELSE objs) /\ UNCHANGED mode
      [] e.a = "odel" -> LET k == Key(e.o) IN
            /\ mode = "rw"
            /\ IF k.k = "m" THEN Op(e, UnsetMetaRes(mem, k.i, k.r), FALSE) ELSE Op(e, DeletePartRes(mem, k.i, TRUE), TRUE)
            /\ KeepObjs
      [] e.a = "look" -> LET k == Key(e.o) IN
            /\ Query(e) /\ KeepObjs
            /\ IF k.k = "m"
               THEN LET K == MetaIdx(mem.m, k.i, k.r) IN Ok(e) = (K # {}) /\ (Ok(e) => e.v = ViewM(mem.m[First(K)]))
               ELSE LET K == PartIdx(mem.p, k.i) IN
                    /\ Ok(e) = (K # {})
                    /\ Ok(e) => /\ e.v = ViewP(mem, First(K))
                                /\ e.c = mem.p[First(K)].c /\ e.n = StoredSizeNoPad(mem.p[First(K)])
      [] e.a = "text" -> LET k == Key(e.o) K == MetaIdx(mem.m, k.i, k.r) IN
            /\ Query(e) /\ KeepObjs
            /\ Ok(e) = (K # {} /\ Ascii(Text(mem.m[First(K)].d)))
            /\ Ok(e) => e.t = Text(mem.m[First(K)].d)
      [] e.a = "uuid" -> LET k == Key(e.o) K == MetaIdx(mem.m, k.i, k.r) IN
            /\ Query(e) /\ KeepObjs
            /\ Ok(e) = (K # {} /\ mem.m[First(K)].s = 16)
            /\ Ok(e) => e.u = mem.m[First(K)].d
      [] e.a = "field" -> PyEdit(e, AnyPr(PyField(mem, e.f, e.v, e.fits), e)) /\ KeepObjs
      [] e.a = "pysig" -> PyEdit(e, IF e.fits THEN InstallSigRes(mem, e.sg) ELSE Refused(mem)) /\ KeepObjs
      [] e.a \in {"paddmeta", "pdelmeta", "pdelpart", "addfile", "addkey", "addmerkle", "sign"} -> mode = "rw" /\ Act(e) /\ KeepObjs
      [] e.a \in {"load", "keep", "bring", "extsign", "updhash", "psize", "verify", "vfile", "short"} -> Act(e) /\ KeepObjs
      [] OTHER -> FALSE

\* as Obs, without a look into the handle: the objects answer for it
PyObs(e) ==
    IF Has(e, "blind") \/ e.a = "short" THEN UNCHANGED <<seen, seent>>
    ELSE /\ IF Has(e, "disk") THEN (e.a = "vfile" \/ LayoutOK(e.disk, e.a)) = TRUE /\ seen' = FromProj(e.disk) /\ seent' = e.disk.tail
            ELSE UNCHANGED <<seen, seent>>
         /\ IF Has(e, "anypr") THEN [Norm(disk', e) EXCEPT !.pr = ""] = [seen' EXCEPT !.pr = ""]
            ELSE Norm(disk', e) = seen'
         /\ tail' = seent'
         /\ Has(e, "view") => open' /\ e.view = View(mem')

PyInit == TraceInit /\ objs = <<>> /\ mode = "none"
PyStep ==
    /\ l <= Len(T)
    /\ LET e == T[l] IN PyAct(e) /\ PyObs(e)
    /\ l' = l + 1
    /\ UNCHANGED tid
PyDone == l > Len(T) /\ UNCHANGED tvars /\ UNCHANGED <<objs, mode>>
PySpec == PyInit /\ [][PyStep \/ PyDone]_<<tvars, objs, mode>>
=============================================================================
