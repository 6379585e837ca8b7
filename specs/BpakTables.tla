--------------------------- MODULE BpakTables ---------------------------
(***************************************************************************)
(* The 4 kB package header as an abstract object: an ordered metadata      *)
(* table keyed by (id, part reference), an ordered part table keyed by id, *)
(* and the layout both imply.  Part sizes are wide numbers <<hi, lo>> in   *)
(* base 2^24, because TLC integers have 32 bits and part sizes have 64.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS MaxMeta,     \* slots in the metadata table
          MaxParts,    \* slots in the part table
          MetaBytes,   \* bytes in the metadata area
          MetaAlign,   \* alignment of a metadata block
          HeaderSize   \* bytes of the header, i.e. offset of the first part

OK == 0
NOT_FOUND == -2
SIZE_ERROR == -3
NO_SPACE == -4
BAD_ALIGNMENT == -5
NOT_SUPPORTED == -7
BAD_MAGIC == -15
EXISTS == -30

FLAG_EXCLUDE == 1
FLAG_TRANSPORT == 2
HasFlag(f, b) == (f \div b) % 2 = 1

AlignUp(n) == ((n + MetaAlign - 1) \div MetaAlign) * MetaAlign

(* wide naturals *)
Base == 16777216
WAdd(a, b) == LET lo == a[2] + b[2] IN <<a[1] + b[1] + (lo \div Base), lo % Base>>
W(n) == <<n \div Base, n % Base>>
WLe(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
\* Base is a multiple of every alignment used, so only the low limb matters
WMod(a, n) == a[2] % n

(* ---- metadata table: sequence of [i: id, r: part ref, s: size, d: data] *)
\* offset of the block that would follow the entries of ms
MetaTail(ms) == FoldLeft(LAMBDA acc, x : acc + AlignUp(x.s), 0, ms)
MetaEnd(ms, n) == MetaTail(SubSeq(ms, 1, n))
MetaOffset(ms, k) == MetaEnd(ms, k - 1)
\* all offsets at once: <<0, o2, ..., oN, tail>>
MetaOffsets(ms) == FoldLeft(LAMBDA acc, x : Append(acc, acc[Len(acc)] + AlignUp(x.s)), <<0>>, ms)

MetaIdx(ms, i, r) == {k \in 1..Len(ms) : ms[k].i = i /\ ms[k].r = r}
MetaIdxAny(ms, i) == {k \in 1..Len(ms) : ms[k].i = i}
First(S) == CHOOSE x \in S : \A y \in S : x <= y
Without(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))

NOID == "00000000"   \* marks a free slot, names nothing

AddMetaRes(hd, i, r, s, d) ==
    IF i = NOID THEN [rc |-> NOT_SUPPORTED, h |-> hd]
    ELSE IF MetaIdx(hd.m, i, r) # {} THEN [rc |-> EXISTS, h |-> hd]
    ELSE IF Len(hd.m) = MaxMeta \/ MetaTail(hd.m) + s > MetaBytes
         THEN [rc |-> NO_SPACE, h |-> hd]
    ELSE [rc |-> OK, h |-> [hd EXCEPT !.m = Append(@, [i |-> i, r |-> r, s |-> s, d |-> d])]]

DelMetaRes(hd, i, r) ==
    LET K == MetaIdx(hd.m, i, r) IN
    IF K = {} THEN [rc |-> NOT_FOUND, h |-> hd]
    ELSE [rc |-> OK, h |-> [hd EXCEPT !.m = Without(@, First(K))]]

(* what a lookup answers: result code and 1-based position (0: none) *)
GetMetaRes(hd, i, r) ==
    LET K == MetaIdx(hd.m, i, r) IN
    IF K = {} THEN [rc |-> NOT_FOUND, k |-> 0] ELSE [rc |-> OK, k |-> First(K)]
GetMetaAnyRes(hd, i) ==
    LET K == MetaIdxAny(hd.m, i) IN
    IF K = {} THEN [rc |-> NOT_FOUND, k |-> 0] ELSE [rc |-> OK, k |-> First(K)]

(* ---- part table: sequence of [i, s: size, d: padding, f: flags, t: transport size] *)
StoredSize(p) == IF HasFlag(p.f, FLAG_TRANSPORT) THEN p.t ELSE WAdd(p.s, W(p.d))
StoredSizeNoPad(p) == IF HasFlag(p.f, FLAG_TRANSPORT) THEN p.t ELSE p.s
SumStored(ps, n) == FoldLeft(LAMBDA acc, x : WAdd(acc, StoredSize(x)), W(HeaderSize), SubSeq(ps, 1, n))
PartOffset(ps, k) == SumStored(ps, k - 1)

PartIdx(ps, i) == {k \in 1..Len(ps) : ps[k].i = i}

AddPartRes(hd, i, s, d, f, t) ==
    IF i = NOID THEN [rc |-> NOT_SUPPORTED, h |-> hd]
    ELSE IF PartIdx(hd.p, i) # {} THEN [rc |-> EXISTS, h |-> hd]
    ELSE IF Len(hd.p) = MaxParts THEN [rc |-> NO_SPACE, h |-> hd]
    ELSE [rc |-> OK, h |-> [hd EXCEPT !.p = Append(@, [i |-> i, s |-> s, d |-> d, f |-> f, t |-> t])]]

DelPartRes(hd, i) ==
    LET K == PartIdx(hd.p, i) IN
    IF K = {} THEN [rc |-> NOT_FOUND, h |-> hd]
    ELSE [rc |-> OK, h |-> [hd EXCEPT !.p = Without(@, First(K))]]

GetPartRes(hd, i) ==
    LET K == PartIdx(hd.p, i) IN
    IF K = {} THEN [rc |-> NOT_FOUND, k |-> 0, off |-> W(0), sz |-> W(0), szn |-> W(0)]
    ELSE LET k == First(K) IN
         [rc |-> OK, k |-> k, off |-> PartOffset(hd.p, k), sz |-> StoredSize(hd.p[k]),
          szn |-> StoredSizeNoPad(hd.p[k])]
=============================================================================
