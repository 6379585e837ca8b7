---------------------------- MODULE BpakToolMC ----------------------------
(* All short histories of commands over a few names and files; with Emit, the
   source of the command lines run with the real tool. *)
EXTENDS BpakTool, Json
CONSTANTS Packages, PNames, MNames, Files, MaxLive, Emit
VARIABLES fs, last, path
mvars == <<fs, last, path>>

FileSize(f) == CASE f = "f0" -> 0 [] f = "f513" -> 513 [] f = "f8192" -> 8192
TreeName(i) == i \o "-hash-tree"
Name(n) == [name |-> n, hex |-> "", given |-> TRUE]
NoName == [name |-> ZERO, hex |-> "", given |-> FALSE]
Ref(r) == IF r = "0" THEN ZERO ELSE r
\* values: text of n bytes (with its end), numbers, ids
Text(n) == [ok |-> TRUE, s |-> n, d |-> "text" \o ToString(n)]
Number == [ok |-> TRUE, s |-> 8, d |-> "number"]
AnId == [ok |-> TRUE, s |-> 4, d |-> "id"]
Texts == {3, 12}
Pads(v) == [k \in 1..3 |-> [s |-> <<3, 8, 12>>[k], d |-> v.d \o "/" \o ToString(<<3, 8, 12>>[k])]]

Creates == {[a |-> "create", f |-> f, hk |-> 1, sk |-> 2, force |-> g, answer |-> "N"] : f \in Packages, g \in BOOLEAN}
    \cup {[a |-> "create", f |-> f, hk |-> 3, sk |-> 3, force |-> TRUE, answer |-> ""] : f \in Packages}
    \cup {[a |-> "create", f |-> f, hk |-> 0, sk |-> 2, force |-> TRUE, answer |-> ""] : f \in Packages}
Adds == {[a |-> "add", what |-> "file", f |-> f, i |-> i, s |-> W(FileSize(x)), c |-> x, fl |-> fl, there |-> TRUE, file |-> x]
            : f \in Packages, i \in PNames, x \in Files, fl \in {0, 1}}
    \cup {[a |-> "add", what |-> "meta", f |-> f, i |-> m, r |-> Ref(r), v |-> v, enc |-> e[1], n |-> v.s]
            : f \in Packages, m \in MNames, r \in PNames \cup {"0"}, e \in {<<"text">>, <<"integer">>}, v \in {Text(3), Number}}
Sets == {[a |-> "set", f |-> f, m |-> m, enc |-> "text", v |-> Text(n), n |-> n, pads |-> Pads(Text(n)), kid |-> k, sid |-> NoName]
            : f \in Packages, m \in MNames, n \in Texts, k \in {NoName, Name("k1")}}
    \cup {[a |-> "set", f |-> f, m |-> m, enc |-> "integer", v |-> Number, n |-> 8, pads |-> <<>>, kid |-> NoName, sid |-> NoName]
            : f \in Packages, m \in MNames}
    \cup {[a |-> "set", f |-> f, m |-> "", enc |-> "text", v |-> Text(3), n |-> 3, pads |-> <<>>, kid |-> NoName, sid |-> Name("s1")]
            : f \in Packages}
Deletes == {[a |-> "delete", f |-> f, all |-> FALSE, p |-> Name(i), keep |-> k] : f \in Packages, i \in PNames, k \in BOOLEAN}
    \cup {[a |-> "delete", f |-> f, all |-> TRUE, p |-> NoName, keep |-> k] : f \in Packages, k \in BOOLEAN}
Tadds == {[a |-> "tadd", f |-> f, p |-> Name(i), v |-> [ok |-> TRUE, s |-> 32, d |-> "algs"]] : f \in Packages, i \in PNames}
\* commands that only look, and ones that are refused
Looks == {[a |-> "extract", f |-> f, m |-> NoName, r |-> NoName, p |-> Name(i), out |-> o] : f \in Packages, i \in PNames, o \in {"", "O"}}
    \cup {[a |-> "extract", f |-> f, m |-> Name(m), r |-> r, p |-> NoName, out |-> ""]
            : f \in Packages, m \in MNames, r \in {NoName, Name("P")}}
    \cup {[a |-> "add", what |-> "file", f |-> f, i |-> "P", s |-> W(0), c |-> "", fl |-> 0, there |-> FALSE, file |-> "absent"] : f \in Packages}
    \cup {[a |-> "sign", f |-> f, by |-> "file", there |-> TRUE, sg |-> <<n, "sig">>, n |-> n] : f \in Packages, n \in {64, 513}}
Shows == {[a |-> "show", f |-> f, what |-> "all"] : f \in Packages}
    \cup {[a |-> "show", f |-> f, what |-> "hash"] : f \in Packages}
    \cup {[a |-> "show", f |-> f, what |-> "meta", m |-> Name(m), p |-> p] : f \in Packages, m \in MNames, p \in {NoName, Name("P")}}
    \cup {[a |-> "show", f |-> f, what |-> "part", p |-> Name(i)] : f \in Packages, i \in PNames}
    \cup {[a |-> "show", f |-> f, what |-> "parthash", p |-> Name(i)] : f \in Packages, i \in PNames}
Editing == Creates \cup (Adds \ {c \in Adds : c.what = "meta" /\ (c.enc = "text") # (c.v.d = "text3")}) \cup Sets \cup Deletes \cup Tadds

Size(x) == IF x.k # "pkg" THEN 0 ELSE Len(x.h.p) + Len(x.h.m)
MCInit == fs = [n \in {"A", "B", "C", "O"} |-> NONE] /\ last = [f |-> "", ok |-> TRUE] /\ path = <<>>
MCNext == \E c \in Editing : \E r \in Outcomes(c, fs) :
            /\ fs' = r.fs
            /\ Size(fs'["A"]) + Size(fs'["B"]) <= MaxLive
            /\ last' = [f |-> c.f, ok |-> r.ok]
            /\ (r.fs # fs \/ ~Emit)
            /\ path' = IF Emit THEN Append(path, c) ELSE path
MCSpec == MCInit /\ [][MCNext]_mvars
MCView == IF Emit THEN <<fs>> ELSE <<fs, last>>

-----------------------------------------------------------------------------
Pk(n) == fs[n].k = "pkg"
HashCurrent == \A n \in Packages : Pk(n) => fs[n].h.ph = <<"k", HashKey(fs[n].h)>>
Unique == \A n \in Packages : Pk(n) =>
            /\ \A a, b \in 1..Len(fs[n].h.p) : fs[n].h.p[a].i = fs[n].h.p[b].i => a = b
            /\ \A a, b \in 1..Len(fs[n].h.m) : (fs[n].h.m[a].i = fs[n].h.m[b].i /\ fs[n].h.m[a].r = fs[n].h.m[b].r) => a = b
\* only what is named changes, and not by a refused command
Contained == [][\A n \in DOMAIN fs : fs'[n] # fs[n] => (n = last'.f /\ last'.ok)]_mvars
\* entries and parts that are not named stay as they are, at least until the package is made anew
Frame == [][\A n \in Packages : (Pk(n) /\ fs'[n].k = "pkg" /\ Len(fs'[n].h.p) + Len(fs'[n].h.m) >= Size(fs[n])) =>
             \A k \in 1..Len(fs[n].h.p) : \E j \in 1..Len(fs'[n].h.p) : fs'[n].h.p[j] = fs[n].h.p[k]]_mvars
EmitInv == Emit =>
    /\ path = <<>> => PrintT("@@" \o ToJson([alphabet |-> Editing \cup Looks \cup Shows]))
    /\ PrintT("@@" \o ToJson([path |-> path]))
=============================================================================
