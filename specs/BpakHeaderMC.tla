-------------------------- MODULE BpakHeaderMC --------------------------
(* Exhaustive small-constant exploration of BpakHeader, and (Emit = TRUE)
   the source of test scripts: one shortest path per reachable state plus
   the action alphabet, both replayed on the real header. *)
EXTENDS BpakHeader, TLC, Json
CONSTANTS Ids, Refs, Sizes, PIds, PSizes, FillMeta, FillParts, Emit

VARIABLE path
mvars == <<h, saved, rc, path>>

Fill(n, pre) == [k \in 1..n |-> pre \o ToString(k)]
InitH == [m |-> [k \in 1..FillMeta |-> [i |-> "fm" \o ToString(k), r |-> "0", s |-> 0, d |-> ""]],
          p |-> [k \in 1..FillParts |-> [i |-> "fp" \o ToString(k), s |-> W(512), d |-> 0, f |-> 0, t |-> W(0)]]]

\* data is a function of the key and size here: content identity is exercised by
\* the replay, which fills every block with its own bytes
Dat(i, r, s) == i \o r \o ToString(s)

MetaActs == {[a |-> "addmeta", i |-> i, r |-> r, s |-> s] : i \in Ids, r \in Refs, s \in Sizes}
            \cup {[a |-> "delmeta", i |-> i, r |-> r] : i \in Ids, r \in Refs}
MetaObs == {[a |-> "getmeta", i |-> i, r |-> r] : i \in Ids, r \in Refs}
            \cup {[a |-> "getany", i |-> i] : i \in Ids}
PartActs == {[a |-> "addpart", i |-> i, s |-> s, f |-> f] : i \in PIds, s \in PSizes, f \in {0, 2}}
            \cup {[a |-> "delpart", i |-> i] : i \in PIds}
PartObs == {[a |-> "getpart", i |-> i] : i \in PIds}
FillDel == (IF FillMeta > 0 THEN {[a |-> "delmeta", i |-> "fm1", r |-> "0"]} ELSE {})
           \cup (IF FillParts > 0 THEN {[a |-> "delpart", i |-> "fp1"]} ELSE {})

Do(x) ==
    CASE x.a = "addmeta" -> AddMeta(x.i, x.r, x.s, Dat(x.i, x.r, x.s))
      [] x.a = "delmeta" -> DelMeta(x.i, x.r)
      [] x.a = "getmeta" -> GetMeta(x.i, x.r)
      [] x.a = "getany" -> GetMetaAny(x.i)
      [] x.a = "addpart" -> AddPart(x.i, W(x.s), 0, x.f, W(x.s \div 2))
      [] x.a = "delpart" -> DelPart(x.i)
      [] x.a = "getpart" -> GetPart(x.i)

MCInit == h = InitH /\ saved = InitH /\ rc = OK /\ path = <<>>
MCNext == \E x \in MetaActs \cup PartActs : Do(x) /\ path' = IF Emit THEN Append(path, x) ELSE path
MCSpec == MCInit /\ [][MCNext]_mvars
MCView == h

FrameMC == [][FrameStep]_mvars

EmitInv == Emit => /\ path = <<>> => PrintT("@@" \o ToJson([alphabet |-> MetaActs \cup MetaObs \cup PartActs \cup PartObs \cup FillDel]))
                   /\ PrintT("@@" \o ToJson([path |-> path]))
=============================================================================
