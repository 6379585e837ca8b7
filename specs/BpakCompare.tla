---------------------------- MODULE BpakCompare ----------------------------
(***************************************************************************)
(* What comparing two packages reports.                                    *)
(*                                                                         *)
(* A package is a record with the tables m and p of BpakFile; parts carry  *)
(* o, the value of their offset field.  A report is                        *)
(*   m: lines [k, i, s, n, d]   mark, id, size, name and text of an entry  *)
(*   p: lines [k, i, s, d, x, t, ts]  mark, id, size, padding, flags       *)
(*      (excluded, transport coded), transport size of a part              *)
(* Marks: = the same in both, - only in the first, + only in the second,   *)
(* * in both, but different.                                               *)
(***************************************************************************)
EXTENDS BpakFile

SameEntry(x, y) == x.s = y.s /\ x.d = y.d
MetaMark(x, B) == LET K == MetaIdx(B.m, x.i, x.r) IN
                  IF K = {} THEN "-" ELSE IF SameEntry(x, B.m[First(K)]) THEN "=" ELSE "*"
MetaLine(k, x, t) == [k |-> k, i |-> x.i, s |-> x.s, n |-> t.n, d |-> t.d]
\* tA, tB: names and texts of the entries
MetaReport(A, B, tA, tB) ==
    LET fresh == SelectSeq([k \in 1..Len(B.m) |-> k], LAMBDA k : MetaIdx(A.m, B.m[k].i, B.m[k].r) = {}) IN
    [k \in 1..Len(A.m) |-> MetaLine(MetaMark(A.m[k], B), A.m[k], tA[k])]
    \o [k \in 1..Len(fresh) |-> MetaLine("+", B.m[fresh[k]], tB[fresh[k]])]

SamePart(p, q) == p.s = q.s /\ p.d = q.d /\ p.f = q.f /\ p.t = q.t /\ p.c = q.c
\* the marks a part of A may get; one that only lies elsewhere may count as different or not
PartMarks(p, B) == LET K == PartIdx(B.p, p.i) IN
                   IF K = {} THEN {"-"}
                   ELSE LET q == B.p[First(K)] IN
                        IF ~SamePart(p, q) THEN {"*"} ELSE IF p.o = q.o THEN {"="} ELSE {"=", "*"}
PartText(p) == [i |-> p.i, s |-> p.s, d |-> p.d, x |-> HasFlag(p.f, FLAG_EXCLUDE), t |-> HasFlag(p.f, FLAG_TRANSPORT),
                ts |-> IF HasFlag(p.f, FLAG_TRANSPORT) THEN p.t ELSE p.s]
Shape(l) == [i |-> l.i, s |-> l.s, d |-> l.d, x |-> l.x, t |-> l.t, ts |-> l.ts]
PartReport(A, B) == {[t |-> PartText(A.p[k]), k |-> PartMarks(A.p[k], B)] : k \in 1..Len(A.p)}
                \cup {[t |-> PartText(B.p[k]), k |-> {"+"}] : k \in {j \in 1..Len(B.p) : PartIdx(A.p, B.p[j].i) = {}}}

Count(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A k \in DOMAIN s : Count(s, s[k]) = Count(t, s[k])
ReportOK(A, B, tA, tB, r) ==
    /\ SameBag(r.m, MetaReport(A, B, tA, tB))
    /\ Len(r.p) = Cardinality(PartReport(A, B))
    /\ \A w \in PartReport(A, B) : \E k \in DOMAIN r.p : Shape(r.p[k]) = w.t /\ r.p[k].k \in w.k

(* Packages that are cut short: contents that are not there are "EOF".     *)
(* known: ids of parts that differ in what is there of both.               *)
AnyShort(A, B) == \E X \in {A, B} : \E k \in 1..Len(X.p) : X.p[k].c = "EOF"
\* nobody can tell
Unknown(A, B, known) == \E k \in 1..Len(A.p) : \E j \in 1..Len(B.p) :
    /\ A.p[k].i = B.p[j].i /\ StoredSize(A.p[k]) = StoredSize(B.p[j])
    /\ "EOF" \in {A.p[k].c, B.p[j].c} /\ A.p[k].i \notin known
\* a short part never equals another one
Apart(X, tag) == [X EXCEPT !.p = [k \in 1..Len(X.p) |-> IF X.p[k].c = "EOF" THEN [X.p[k] EXCEPT !.c = tag] ELSE X.p[k]]]
CompareOK(A, B, tA, tB, known, ok, r) ==
    /\ ok \/ AnyShort(A, B)
    /\ ok => ~Unknown(A, B, known) /\ ReportOK(Apart(A, "short1"), Apart(B, "short2"), tA, tB, r)
=============================================================================
