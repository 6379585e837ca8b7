--------------------------- MODULE BpakPython ---------------------------
(* The object interface of the Python module: a package object is the
   handle of BpakPackage, metadata and part objects are names (keys) that
   are looked up each time they are used. *)
EXTENDS BpakPackage

VARIABLES objs,    \* variable -> [k: "m" or "p", i, r]: the objects a program holds
          mode     \* "rw", "r" (opened for reading) or "none"
yvars == <<disk, tail, mem, open, sv, objs, mode>>

KeepObjs == UNCHANGED <<objs, mode>>
Bind(o, k) == [x \in DOMAIN objs \cup {o} |-> IF x = o THEN k ELSE objs[x]]
Unbind(os) == [x \in DOMAIN objs \ os |-> objs[x]]

(* the bytes a value gives: text is stored with a terminating zero *)
Bytes(b, text) == IF text THEN Append(b, 0) ELSE b
Zeros(n) == [k \in 1..n |-> 0]
\* cut or filled up with zeroes to n bytes
Fit(b, n) == IF Len(b) >= n THEN SubSeq(b, 1, n) ELSE b \o Zeros(n - Len(b))

\* size -1: as long as the value
PyAddMeta(hd, i, r, b, text, size) ==
    LET v == Bytes(b, text)
        n == IF size < 0 THEN Len(v) ELSE size
    IN IF i = NOID \/ n > MetaBytes THEN Refused(hd) ELSE SetMetaRes(hd, i, r, n, Fit(v, n))

PyMetaKey(hd, i, r, i2, r2) ==
    IF MetaIdx(hd.m, i, r) = {} \/ i2 = NOID \/ (<<i2, r2>> # <<i, r>> /\ MetaIdx(hd.m, i2, r2) # {}) THEN Refused(hd)
    ELSE Done([hd EXCEPT !.m[First(MetaIdx(hd.m, i, r))] = [@ EXCEPT !.i = i2, !.r = r2]])

PySetRaw(hd, i, r, b, text) ==
    LET v == Bytes(b, text) K == MetaIdx(hd.m, i, r) IN
    IF K = {} THEN Refused(hd)
    ELSE IF Len(v) > hd.m[First(K)].s THEN Refused(hd)
    ELSE Done([hd EXCEPT !.m[First(K)].d = Fit(v, hd.m[First(K)].s)])

PyPartKey(hd, i, i2) ==
    IF PartIdx(hd.p, i) = {} \/ i2 = NOID \/ (i2 # i /\ PartIdx(hd.p, i2) # {}) THEN Refused(hd)
    ELSE Done([hd EXCEPT !.p[First(PartIdx(hd.p, i))].i = i2])

PyField(hd, f, v, fits) ==
    IF ~fits THEN Refused(hd) ELSE SetFieldRes(hd, f, v)

(* what a metadata value reads as text: up to its first zero *)
RECURSIVE Text(_)
Text(b) == IF b = <<>> \/ b[1] = 0 THEN <<>> ELSE <<b[1]>> \o Text(Tail(b))
Ascii(b) == \A k \in 1..Len(b) : b[k] < 128

(* what the object answers *)
ViewM(x) == [i |-> x.i, r |-> x.r, s |-> x.s, d |-> x.d]
ViewP(hd, k) == [i |-> hd.p[k].i, s |-> StoredSize(hd.p[k]), o |-> PartOffset(hd.p, k), t |-> HasFlag(hd.p[k].f, FLAG_TRANSPORT)]
View(hd) == [m |-> [k \in 1..Len(hd.m) |-> ViewM(hd.m[k])],
             p |-> [k \in 1..Len(hd.p) |-> ViewP(hd, k)],
             hk |-> hd.hk, sk |-> hd.sk, kid |-> hd.kid, sid |-> hd.sid, sg |-> <<IF hd.sg[1] > 512 THEN 512 ELSE hd.sg[1], hd.sg[2]>>,
             size |-> FileEnd(hd), inst |-> InstalledSize(hd)]
=============================================================================
