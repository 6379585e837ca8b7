------------------------ MODULE BpakHeaderTrace -------------------------
(* Recorded histories of header operations, checked step by step against
   the actions of BpakHeader.  Every event carries the arguments, the result
   and the full projection of the header after the operation. *)
EXTENDS BpakHeader, TLC, Json
VARIABLES tid, l, xg
tvars == <<h, saved, rc, tid, l, xg>>

Traces == JsonDeserialize("traces.json")
T == Traces[tid]

MetaProj(ms) == LET off == MetaOffsets(ms) IN
    [k \in 1..Len(ms) |-> [i |-> ms[k].i, r |-> ms[k].r, s |-> ms[k].s, o |-> off[k], d |-> ms[k].d]]
PartProj(ps) == ps

TraceInit == HInit /\ tid \in 1..Len(Traces) /\ l = 1 /\ xg = <<"", "", 0>>

Act(e) ==
    CASE e.a = "hinit" -> h' = Empty /\ rc' = OK /\ UNCHANGED saved
      [] e.a = "addmeta" -> AddMeta(e.i, e.r, e.s, e.d)
      [] e.a = "delmeta" -> DelMeta(e.i, e.r)
      [] e.a = "getmeta" -> GetMeta(e.i, e.r) /\ e.k = GetMetaRes(h, e.i, e.r).k
      [] e.a = "getany" -> GetMetaAny(e.i) /\ e.k = GetMetaAnyRes(h, e.i).k
      [] e.a = "addpart" -> AddPart(e.i, e.s, e.dd, e.f, e.t)
      [] e.a = "delpart" -> DelPart(e.i)
      [] e.a = "getpart" -> GetPart(e.i) /\ LET g == GetPartRes(h, e.i) IN
                              e.k = g.k /\ e.off = g.off /\ e.sz = g.sz /\ e.szn = g.szn
      [] e.a = "save" -> Save
      [] e.a = "restore" -> Restore
      [] OTHER -> FALSE

TraceStep ==
    /\ l <= Len(T)
    /\ LET e == T[l] IN
       /\ Act(e)
       /\ rc' = e.rc
       \* tables absent from an event are the same as in the event before it
       /\ IF "m" \in DOMAIN e THEN e.m = MetaProj(h'.m) ELSE h'.m = h.m
       /\ IF "p" \in DOMAIN e THEN e.p = PartProj(h'.p) ELSE h'.p = h.p
       \* a part starts out with nothing in it, and slots that were given up
       \* hold nothing
       /\ "blank" \in DOMAIN e => e.blank
       /\ e.xg[3] = 0
       /\ xg' = e.xg
       /\ (e.a # "hinit") => e.xg = xg
    /\ l' = l + 1
    /\ UNCHANGED tid
TraceDone == l > Len(T) /\ UNCHANGED tvars
TraceNext == TraceStep \/ TraceDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
