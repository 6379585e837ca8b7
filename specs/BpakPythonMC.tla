-------------------------- MODULE BpakPythonMC --------------------------
(* Programs against the Python module over a few names, objects and values;
   with Emit, the source of the programs run on the real module. *)
EXTENDS BpakPython, Json
CONSTANTS MVars, PVars, MIds, Refs, PIds, Values, MaxLive, MaxPath, Emit
VARIABLE path
ymvars == <<yvars, path>>

MK(i, r) == [k |-> "m", i |-> i, r |-> r]
PK(i) == [k |-> "p", i |-> i, r |-> NOID]
Ref(r) == IF r = "0" THEN NOID ELSE r
Val(v) == CASE v = "" -> <<>> [] v = "ab" -> <<97, 98>> [] v = "abc" -> <<97, 98, 99>> [] v = "abcd" -> <<97, 98, 99, 100>>

\* size: the file added as a part
Edits == {[a |-> "addmeta", o |-> o, i |-> i, r |-> r, v |-> v, text |-> t, size |-> s] :
               o \in MVars, i \in MIds, r \in Refs, v \in Values, t \in BOOLEAN, s \in {-1, 4}}
    \cup {[a |-> "mid", o |-> o, v |-> v] : o \in MVars, v \in MIds \cup {"0"}}
    \cup {[a |-> "mref", o |-> o, v |-> v] : o \in MVars, v \in Refs}
    \cup {[a |-> "mraw", o |-> o, v |-> v, text |-> t] : o \in MVars, v \in Values, t \in BOOLEAN}
    \cup {[a |-> "odel", o |-> o] : o \in MVars \cup PVars}
    \cup {[a |-> "addto", o |-> o, i |-> i] : o \in PVars, i \in PIds}
    \cup {[a |-> "pid", o |-> o, v |-> v] : o \in PVars, v \in PIds \cup {"0"}}
Gets == {[a |-> "getm", o |-> o, i |-> i, r |-> r] : o \in MVars, i \in MIds, r \in Refs}
    \cup {[a |-> "getp", o |-> o, i |-> i] : o \in PVars, i \in PIds}
Looks == {[a |-> "look", o |-> o] : o \in MVars \cup PVars} \cup {[a |-> "cycle"]}

Held(o) == o \in DOMAIN objs
Res(x) ==
    CASE x.a = "addmeta" -> PyAddMeta(mem, x.i, Ref(x.r), Val(x.v), x.text, x.size)
      [] x.a = "mid" -> PyMetaKey(mem, objs[x.o].i, objs[x.o].r, IF x.v = "0" THEN NOID ELSE x.v, objs[x.o].r)
      [] x.a = "mref" -> PyMetaKey(mem, objs[x.o].i, objs[x.o].r, objs[x.o].i, Ref(x.v))
      [] x.a = "mraw" -> PySetRaw(mem, objs[x.o].i, objs[x.o].r, Val(x.v), x.text)
      [] x.a = "odel" -> IF objs[x.o].k = "m" THEN UnsetMetaRes(mem, objs[x.o].i, objs[x.o].r)
                         ELSE DeletePartRes(mem, objs[x.o].i, TRUE)
      [] x.a = "addto" -> AddFileRes(mem, x.i, W(513), "c", 0)
      [] x.a = "pid" -> PyPartKey(mem, objs[x.o].i, IF x.v = "0" THEN NOID ELSE x.v)
Able(x) == x.a \in {"addmeta", "addto", "getm", "getp"} \/ Held(x.o)
After(x, ok) ==
    CASE x.a = "addmeta" -> IF ok THEN Bind(x.o, MK(x.i, Ref(x.r))) ELSE Unbind({x.o})
      [] x.a = "addto" -> IF ok THEN Bind(x.o, PK(x.i)) ELSE Unbind({x.o})
      [] x.a = "mid" /\ ok -> Bind(x.o, MK(x.v, objs[x.o].r))
      [] x.a = "mref" /\ ok -> Bind(x.o, MK(objs[x.o].i, Ref(x.v)))
      [] x.a = "pid" /\ ok -> Bind(x.o, PK(x.v))
      [] OTHER -> objs
GetRes(x) == IF x.a = "getm" THEN MetaIdx(mem.m, x.i, Ref(x.r)) # {} ELSE PartIdx(mem.p, x.i) # {}

MCInit == PInit /\ objs = <<>> /\ mode = "none" /\ path = <<>>
MCNext ==
    \/ ~open /\ Open /\ mode' = "rw" /\ UNCHANGED objs /\ path' = path
    \/ \E x \in Edits :
         /\ open /\ Able(x) /\ Len(path) < MaxPath
         /\ LET r == Res(x) IN
            /\ Len(r.h.p) + Len(r.h.m) <= MaxLive
            /\ r.ok
            /\ Edit(r, x.a = "odel")
            /\ objs' = After(x, r.ok)
         /\ UNCHANGED mode
         /\ path' = Append(path, x)
    \/ \E x \in Gets :
         /\ open /\ GetRes(x) /\ Len(path) < MaxPath
         /\ objs' = Bind(x.o, IF x.a = "getm" THEN MK(x.i, Ref(x.r)) ELSE PK(x.i))
         /\ UNCHANGED <<disk, tail, mem, open, sv, mode>>
         /\ path' = Append(path, x)
MCSpec == MCInit /\ [][MCNext]_ymvars
MCView == <<disk, mem, open, objs>>

-----------------------------------------------------------------------------
OnFile == open => mem = disk
UniqueM == \A a, b \in 1..Len(disk.m) : (disk.m[a].i = disk.m[b].i /\ disk.m[a].r = disk.m[b].r) => a = b
UniqueP == \A a, b \in 1..Len(disk.p) : disk.p[a].i = disk.p[b].i => a = b
NoHole == (\A k \in 1..Len(disk.m) : disk.m[k].i # NOID /\ disk.m[k].s = Len(disk.m[k].d)) /\ \A k \in 1..Len(disk.p) : disk.p[k].i # NOID
HashCurrent == disk.ph = <<"k", HashKey(disk)>>
\* one statement touches one entry: at most one is new, gone or changed
Same(a, b) == Cardinality({k \in 1..Len(a) : \A j \in 1..Len(b) : a[k] # b[j]}) <= 1
Frame == open => Same(mem.p, mem'.p) /\ (Len(mem.p) = Len(mem'.p) => Same(mem.m, mem'.m))
FrameMC == [][Frame]_ymvars
\* renaming keeps what is named
NamesOnly == (open /\ Len(mem.m) = Len(mem'.m) /\ Len(mem.p) = Len(mem'.p)) =>
    \A k \in 1..Len(mem.m) : mem.m[k].i # mem'.m[k].i \/ mem.m[k].r # mem'.m[k].r => mem.m[k].d = mem'.m[k].d
NamesMC == [][NamesOnly]_ymvars

EmitInv == Emit /\ open =>
    /\ path = <<>> => PrintT("@@" \o ToJson([alphabet |-> Edits \cup Gets \cup Looks]))
    /\ PrintT("@@" \o ToJson([path |-> path]))
=============================================================================
