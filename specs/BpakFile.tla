---------------------------- MODULE BpakFile ----------------------------
(***************************************************************************)
(* What is in a package file, and what each operation makes of it.         *)
(*                                                                         *)
(* Contents of parts are digest tokens.  Hash values, signatures and hash  *)
(* trees are uninterpreted: the specification says which bytes they are    *)
(* over (HashKey, the header digest, data and salt of a tree).             *)
(*                                                                         *)
(* A header is a record                                                    *)
(*   m, p    metadata and part tables (BpakTables; parts carry c, the      *)
(*           token of their stored bytes without padding)                  *)
(*   hk      hash kind     sk  signature kind                              *)
(*   kid,sid key id and key store id                                       *)
(*   ph      stored payload hash: <<"k", key>> if it is the hash of what   *)
(*           key describes, <<"v", bytes>> if it is just those bytes       *)
(*   pr      bytes of the payload hash field behind the hash               *)
(*   sg, sr  signature length and bytes; bytes of the field behind it       *)
(*   x       all bytes the fields above do not cover                       *)
(***************************************************************************)
EXTENDS BpakTables, TLC

MERKLE_BLOCK == 4096
HASHES_PER_BLOCK == 128
MERKLE_LEVELS == 4

\* ids of the metadata the library itself uses (CRC of their names)
SALT_ID == "7c9b2f93"
ROOT_ID == "e68fc9be"
PART_ALIGN == 512
EMPTYSIG == <<0, "">>

PadOf(s) == (PART_ALIGN - WMod(s, PART_ALIGN)) % PART_ALIGN

(* offset of a part in the decoded stream, the value of its offset field *)
RECURSIVE DecOffsets(_, _)
DecOffsets(ps, acc) == IF ps = <<>> THEN <<>>
    ELSE <<acc>> \o DecOffsets(Tail(ps), WAdd(acc, WAdd(Head(ps).s, W(Head(ps).d))))

(* what the payload hash is over: hash kind, then content and padding of
   every part that is not excluded, in order *)
HashedParts(ps) == SelectSeq(ps, LAMBDA p : ~HasFlag(p.f, FLAG_EXCLUDE))
HashKey(hd) == <<hd.hk, [k \in 1..Len(HashedParts(hd.p)) |->
                   LET p == HashedParts(hd.p)[k] IN
                   <<p.c, IF HasFlag(p.f, FLAG_TRANSPORT) THEN 0 ELSE p.d>>]>>
Hashed(hd) == [hd EXCEPT !.ph = <<"k", HashKey(hd)>>]

FileEnd(hd) == SumStored(hd.p, Len(hd.p))
InstalledSize(hd) == FoldLeft(LAMBDA acc, x : WAdd(acc, WAdd(x.s, W(x.d))), W(0), hd.p)

-----------------------------------------------------------------------------
(* results of the editing operations: [ok, h] *)
Refused(hd) == [ok |-> FALSE, h |-> hd]
Done(hd) == [ok |-> TRUE, h |-> hd]

CanAddPart(hd, i) == i # NOID /\ PartIdx(hd.p, i) = {} /\ Len(hd.p) < MaxParts
PlainPart(i, s, d, f, c) == [i |-> i, s |-> s, d |-> d, f |-> f, t |-> W(0), c |-> c]

AddFileRes(hd, i, s, c, f) ==
    IF ~CanAddPart(hd, i) THEN Refused(hd)
    ELSE Done(Hashed([hd EXCEPT !.p = Append(@, PlainPart(i, s, PadOf(s), f, c))]))

(* levels of a hash tree over n blocks, bottom first: blocks per level *)
RECURSIVE TreeLevels(_)
TreeLevels(n) == LET b == (n + HASHES_PER_BLOCK - 1) \div HASHES_PER_BLOCK IN
                 IF b <= 1 THEN <<b>> ELSE <<b>> \o TreeLevels(b)
TreeBlocks(n) == FoldLeft(LAMBDA a, x : a + x, 0, TreeLevels(n))
\* s: size as a wide number; 4096 divides the base
BlocksOf(s) == s[1] * (Base \div MERKLE_BLOCK) + s[2] \div MERKLE_BLOCK
TreeOK(s) == WMod(s, MERKLE_BLOCK) = 0 /\ s # W(0) /\ s[1] < 8192 /\ Len(TreeLevels(BlocksOf(s))) <= MERKLE_LEVELS
TreeSize(s) == LET b == TreeBlocks(BlocksOf(s)) IN <<b \div 4096, (b % 4096) * MERKLE_BLOCK>>

(* i: data part, ti: tree part, g: [salt, root, tree] tokens *)
AddMerkleRes(hd, i, ti, s, c, f, g) ==
    LET a == AddMetaRes(hd, SALT_ID, i, 32, g.salt)
        b == AddMetaRes(a.h, ROOT_ID, i, 32, g.root)
    IN IF \/ ~TreeOK(s) \/ ~CanAddPart(hd, i) \/ PartIdx(hd.p, ti) # {} \/ Len(hd.p) + 2 > MaxParts
          \/ a.rc # OK \/ b.rc # OK \/ i = ti \/ ti = NOID
       THEN Refused(hd)
       ELSE Done(Hashed([b.h EXCEPT !.p = Append(Append(@, PlainPart(i, s, 0, f, c)),
                                                 PlainPart(ti, TreeSize(s), 0, f, g.tree))]))

DropMeta(ms, Test(_)) == SelectSeq(ms, LAMBDA x : ~Test(x))

DeletePartRes(hd, i, rm) ==
    IF PartIdx(hd.p, i) = {} THEN Refused(hd)
    ELSE LET q == [hd EXCEPT !.p = Without(@, First(PartIdx(hd.p, i))),
                             !.m = IF rm THEN DropMeta(@, LAMBDA x : x.r = i) ELSE @]
         IN Done(Hashed(q))

DeleteAllRes(hd, rm) ==
    Done(Hashed([hd EXCEPT !.p = <<>>, !.m = IF rm THEN DropMeta(@, LAMBDA x : x.r # "00000000") ELSE @]))

SetMetaRes(hd, i, r, s, d) == LET q == AddMetaRes(hd, i, r, s, d) IN [ok |-> q.rc = OK, h |-> q.h]
UnsetMetaRes(hd, i, r) == LET q == DelMetaRes(hd, i, r) IN [ok |-> q.rc = OK, h |-> q.h]

SetFieldRes(hd, f, v) ==
    CASE f = "keyid" -> Done([hd EXCEPT !.kid = v])
      [] f = "ksid" -> Done([hd EXCEPT !.sid = v])
      [] f = "sigkind" -> Done([hd EXCEPT !.sk = v])
      [] f = "hash" -> Done(Hashed([hd EXCEPT !.hk = v]))

InstallSigRes(hd, sg) == IF sg[1] > 512 THEN Refused(hd) ELSE Done([hd EXCEPT !.sg = sg, !.sr = ""])
\* signing makes the payload hash current and replaces the signature
SignRes(hd, sg) == Done([Hashed(hd) EXCEPT !.sg = sg, !.sr = ""])
TakeSigRes(hd, room) ==
    IF hd.sg[1] = 0 \/ hd.sg[1] > 512 \/ hd.sg[1] > room THEN Refused(hd)
    ELSE Done([hd EXCEPT !.sg = EMPTYSIG, !.sr = ""])

FreshHeader == [m |-> <<>>, p |-> <<>>, hk |-> 1, sk |-> 2, kid |-> "00000000", sid |-> "00000000",
                ph |-> <<"k", <<1, <<>>>>>>, pr |-> "", sg |-> EMPTYSIG, sr |-> "", x |-> ""]

\* wide numbers: a - b, not below zero
WMinus(a, b) == IF WLe(a, b) THEN W(0)
                ELSE IF a[2] >= b[2] THEN <<a[1] - b[1], a[2] - b[2]>> ELSE <<a[1] - b[1] - 1, a[2] + Base - b[2]>>
-----------------------------------------------------------------------------
(* Verification.  Ledger is the set of signatures anybody ever made:
   [sg, key, hd], hd the digest of the header without its signature.  *)
SignedBy(L, sg, key, hd) == \E g \in L : g.sg = sg /\ g.key = key /\ g.hd = hd
\* ph current: now is the key of the bytes that are there now
PayloadCurrent(hd, now, val) == hd.ph = <<"k", now>> \/ hd.ph = <<"v", val>>
(* facts F: what the tree over part i's stored bytes with the salt in the
   header would be, and what is at the start of the tree part *)
TreesGood(hd, F, TreeId(_)) ==
    \A k \in 1..Len(hd.p) :
       LET i == hd.p[k].i IN
       MetaIdx(hd.m, ROOT_ID, i) # {} =>
          /\ MetaIdx(hd.m, SALT_ID, i) # {}
          /\ PartIdx(hd.p, TreeId(i)) # {}
          /\ TreeOK(StoredSize(hd.p[k]))
          /\ \E f \in F : /\ f.i = i
                          /\ f.salt = hd.m[First(MetaIdx(hd.m, SALT_ID, i))].d
                          /\ f.root = hd.m[First(MetaIdx(hd.m, ROOT_ID, i))].d
                          \* a single block is its own top: nothing but its hash is ever read
                          /\ IF BlocksOf(StoredSize(hd.p[k])) = 1 THEN f.hash = f.havehash ELSE f.tree = f.have
-----------------------------------------------------------------------------
(* An observed file q: tables, offsets, contents and residues as recorded. *)
FromProj(q) == [m |-> [k \in 1..Len(q.m) |-> [i |-> q.m[k].i, r |-> q.m[k].r, s |-> q.m[k].s, d |-> q.m[k].d]],
                p |-> [k \in 1..Len(q.p) |-> [i |-> q.p[k].i, s |-> q.p[k].s, d |-> q.p[k].d, f |-> q.p[k].f,
                                              t |-> q.p[k].t, c |-> q.p[k].c]],
                hk |-> q.hk, sk |-> q.sk, kid |-> q.kid, sid |-> q.sid, ph |-> <<"v", q.ph>>, pr |-> q.pr,
                sg |-> q.sg, sr |-> q.sr, x |-> q.x]
OffsetsOK(q) ==
    LET mo == MetaOffsets(q.m) po == DecOffsets(q.p, W(HeaderSize)) IN
    /\ \A k \in 1..Len(q.m) : q.m[k].o = mo[k]
    /\ \A k \in 1..Len(q.p) : q.p[k].o = po[k]
\* the bytes of a payload hash, given the hash of what is in the file now (e.hf)
PhVal(ph, e) == IF ph[1] = "v" THEN ph[2] ELSE IF ph[2] = e.hf.k THEN e.hf.v ELSE "?"
Norm(hd, e) == [hd EXCEPT !.ph = <<"v", PhVal(hd.ph, e)>>]
=============================================================================
