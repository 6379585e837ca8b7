-------------------------- MODULE BpakPackageMC --------------------------
(* Exhaustive exploration of editing histories over a few names and files;
   with Emit, the source of the scripts replayed on real files. *)
EXTENDS BpakPackage, Json
CONSTANTS PNames, Files, KeyNames, MNames, Flags, MaxLive, Emit, WithTree
VARIABLE path
mvars == <<disk, tail, mem, open, sv, path>>

\* sizes of the files, by name
FileSize(f) == CASE f = "f0" -> 0 [] f = "f1" -> 1 [] f = "f512" -> 512 [] f = "f513" -> 513
                 [] f = "f4096" -> 4096 [] f = "f5000" -> 5000 [] f = "f8192" -> 8192 [] f = "f9000" -> 9000
TreeName(i) == i \o "-hash-tree"
G(i, f) == [salt |-> "salt" \o i \o f, root |-> "root" \o i \o f, tree |-> "tree" \o i \o f]

EditActs == {[a |-> "addfile", i |-> i, file |-> f, f |-> fl] : i \in PNames, f \in Files, fl \in Flags}
    \cup {[a |-> "addkey", i |-> i, key |-> k, f |-> 0] : i \in PNames, k \in KeyNames}
    \cup (IF WithTree THEN {[a |-> "addmerkle", i |-> i, file |-> f, f |-> 0] : i \in PNames, f \in Files} ELSE {})
    \cup {[a |-> "pdelpart", i |-> i, rm |-> rm] : i \in PNames \cup (IF WithTree THEN {TreeName(i) : i \in PNames} ELSE {}),
                                                   rm \in BOOLEAN}
    \cup {[a |-> "delall", rm |-> rm] : rm \in BOOLEAN}
    \cup {[a |-> "paddmeta", i |-> m, r |-> r] : m \in MNames, r \in PNames \cup {"0"}}
    \cup {[a |-> "pdelmeta", i |-> m, r |-> r] : m \in MNames, r \in PNames \cup {"0"}}
ObsActs == {[a |-> "extract", i |-> i] : i \in PNames} \cup {[a |-> "psha", i |-> i] : i \in PNames}
    \cup {[a |-> "psize"], [a |-> "addfile", i |-> "P", file |-> "absent", f |-> 0],
          [a |-> "addkey", i |-> "P", key |-> "rsa2048", f |-> 0],
          [a |-> "addfile", i |-> "new", file |-> "f5000", f |-> 0],
          [a |-> "reopen"], [a |-> "updhash"]}

Ref(r) == IF r = "0" THEN "00000000" ELSE r
Res(x) ==
    CASE x.a = "addfile" -> AddFileRes(mem, x.i, W(FileSize(x.file)), x.file, x.f)
      [] x.a = "addkey" -> AddFileRes(mem, x.i, W(91), x.key, x.f)
      [] x.a = "addmerkle" -> AddMerkleRes(mem, x.i, TreeName(x.i), W(FileSize(x.file)), x.file, x.f, G(x.i, x.file))
      [] x.a = "pdelpart" -> DeletePartRes(mem, x.i, x.rm)
      [] x.a = "delall" -> DeleteAllRes(mem, x.rm)
      [] x.a = "paddmeta" -> SetMetaRes(mem, x.i, Ref(x.r), 5, x.i \o x.r)
      [] x.a = "pdelmeta" -> UnsetMetaRes(mem, x.i, Ref(x.r))

MCInit == PInit /\ path = <<>>
MCNext == \/ /\ ~open /\ Open /\ path' = path
          \/ \E x \in EditActs :
               /\ open
               /\ LET r == Res(x) IN
                  /\ Len(r.h.p) + Len(r.h.m) <= MaxLive
                  /\ r.h # mem
                  /\ Edit(r, x.a \in {"pdelpart", "delall"})
               /\ path' = IF Emit THEN Append(path, x) ELSE path
MCSpec == MCInit /\ [][MCNext]_mvars
MCView == <<disk, mem, open>>

-----------------------------------------------------------------------------
(* Properties of the design *)
HashCurrent == mem.ph = <<"k", HashKey(mem)>> /\ disk.ph = <<"k", HashKey(disk)>>
HandleIsFile == open => mem = disk
Unique == \A a, b \in 1..Len(disk.p) : disk.p[a].i = disk.p[b].i => a = b
(* every part that stays keeps its content, its place among the others and
   its flags; a refused operation changes nothing *)
Keeps == \A k \in 1..Len(mem.p) :
            (PartIdx(mem'.p, mem.p[k].i) # {}) =>
               mem'.p[First(PartIdx(mem'.p, mem.p[k].i))] = mem.p[k]
OrderKept == \A a, b \in 1..Len(mem.p) : a < b =>
                LET A == PartIdx(mem'.p, mem.p[a].i) B == PartIdx(mem'.p, mem.p[b].i) IN
                (A # {} /\ B # {}) => First(A) < First(B)
Frame == open => Keeps /\ OrderKept
FrameMC == [][Frame]_mvars

EmitInv == Emit /\ open =>
    /\ path = <<>> => PrintT("@@" \o ToJson([alphabet |-> EditActs \cup ObsActs]))
    /\ PrintT("@@" \o ToJson([path |-> path]))
=============================================================================
