--------------------------- MODULE BpakHeader ---------------------------
(* The package header in memory as a state machine over BpakTables. *)
EXTENDS BpakTables

-----------------------------------------------------------------------------
VARIABLES h,      \* the header
          saved,  \* a snapshot, for branching test scripts
          rc      \* result of the last operation

hvars == <<h, saved, rc>>

Empty == [m |-> <<>>, p |-> <<>>]
HInit == h = Empty /\ saved = Empty /\ rc = OK

Apply(res) == h' = res.h /\ rc' = res.rc /\ UNCHANGED saved

AddMeta(i, r, s, d) == Apply(AddMetaRes(h, i, r, s, d))
DelMeta(i, r) == Apply(DelMetaRes(h, i, r))
GetMeta(i, r) == rc' = GetMetaRes(h, i, r).rc /\ UNCHANGED <<h, saved>>
GetMetaAny(i) == rc' = GetMetaAnyRes(h, i).rc /\ UNCHANGED <<h, saved>>
AddPart(i, s, d, f, t) == Apply(AddPartRes(h, i, s, d, f, t))
DelPart(i) == Apply(DelPartRes(h, i))
GetPart(i) == rc' = GetPartRes(h, i).rc /\ UNCHANGED <<h, saved>>
Save == saved' = h /\ rc' = OK /\ UNCHANGED h
Restore == h' = saved /\ rc' = OK /\ UNCHANGED saved

-----------------------------------------------------------------------------
(* Properties of the design *)
TypeOK == Len(h.m) <= MaxMeta /\ Len(h.p) <= MaxParts
UniqueMeta == \A a, b \in 1..Len(h.m) : (h.m[a].i = h.m[b].i /\ h.m[a].r = h.m[b].r) => a = b
UniqueParts == \A a, b \in 1..Len(h.p) : h.p[a].i = h.p[b].i => a = b
MetaInBounds == \A k \in 1..Len(h.m) : MetaOffset(h.m, k) + h.m[k].s <= MetaBytes
MetaAligned == \A k \in 1..Len(h.m) : MetaOffset(h.m, k) % MetaAlign = 0
MetaDisjoint == \A a, b \in 1..Len(h.m) :
    a < b => MetaOffset(h.m, a) + h.m[a].s <= MetaOffset(h.m, b)
PartsDisjoint == \A a, b \in 1..Len(h.p) :
    a < b => WLe(WAdd(PartOffset(h.p, a), StoredSize(h.p[a])), PartOffset(h.p, b))

(* the keyed-store view *)
MetaMap(hd) == [key \in {<<hd.m[k].i, hd.m[k].r>> : k \in 1..Len(hd.m)} |->
                  hd.m[GetMetaRes(hd, key[1], key[2]).k].d]
(* a failed operation changes nothing; a step changes at most one key, and a
   metadata step never touches parts nor the other way round *)
FrameStep ==
    /\ rc' # OK => h' = h
    /\ h' # h => h'.m = h.m \/ h'.p = h.p
    /\ LET A == MetaMap(h) B == MetaMap(h') IN
       Cardinality((DOMAIN A \ DOMAIN B) \cup (DOMAIN B \ DOMAIN A)
                   \cup {x \in DOMAIN A \cap DOMAIN B : A[x] # B[x]}) <= 1
Frame == [][(saved' # saved \/ h' = saved) \/ FrameStep]_hvars
=============================================================================
