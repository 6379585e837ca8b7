--------------------------- MODULE BpakCompareMC ---------------------------
(* Every pair of packages over a few entries and parts.  What is compared is
   checked against what equality, absence and symmetry demand; with Emit the
   packages are printed, to be built and compared by the real tool. *)
EXTENDS BpakCompare, Json
CONSTANTS Keys, Values, Ids, Kinds, Emit
VARIABLES a, b
vars == <<a, b>>

\* tables: every choice of entries, in every order of those chosen
Orders(S) == {s \in [1..Cardinality(S) -> S] : \A x, y \in DOMAIN s : s[x] = s[y] => x = y}
KeyOf(n) == CASE n = "k1" -> <<"m1", "00000000">> [] n = "k2" -> <<"m1", "P">> [] n = "k3" -> <<"m2", "00000000">>
ValOf(n) == CASE n = "v1" -> [s |-> 3, d |-> "abc"] [] n = "v2" -> [s |-> 3, d |-> "abd"] [] n = "v3" -> [s |-> 4, d |-> "abc/"]
Entry(k, v) == [i |-> KeyOf(k)[1], r |-> KeyOf(k)[2], s |-> ValOf(v).s, d |-> ValOf(v).d]
\* kinds of parts: two contents of one size, a longer one, one that is not hashed, one that is coded
PartOf(i, n) ==
    CASE n = "x" -> [i |-> i, s |-> W(5), d |-> 507, f |-> 0, t |-> W(0), c |-> "x"]
      [] n = "y" -> [i |-> i, s |-> W(5), d |-> 507, f |-> 0, t |-> W(0), c |-> "y"]
      [] n = "long" -> [i |-> i, s |-> W(6), d |-> 506, f |-> 0, t |-> W(0), c |-> "x/"]
      [] n = "flag" -> [i |-> i, s |-> W(5), d |-> 507, f |-> 1, t |-> W(0), c |-> "x"]
      [] n = "coded" -> [i |-> i, s |-> W(5), d |-> 507, f |-> 2, t |-> W(512), c |-> "x/507"]
      [] n = "other" -> [i |-> i, s |-> W(5), d |-> 507, f |-> 2, t |-> W(512), c |-> "z"]
MetaTables == UNION {{[k \in DOMAIN o |-> Entry(o[k], g[o[k]])] : o \in Orders(S), g \in [S -> Values]} : S \in SUBSET Keys}
PartTables == UNION {{[k \in DOMAIN o |-> PartOf(o[k], g[o[k]])] : o \in Orders(S), g \in [S -> Kinds]} : S \in SUBSET Ids}
Placed(ps) == LET off == DecOffsets(ps, W(HeaderSize)) IN
              [k \in DOMAIN ps |-> [i |-> ps[k].i, s |-> ps[k].s, d |-> ps[k].d, f |-> ps[k].f, t |-> ps[k].t, c |-> ps[k].c, o |-> off[k]]]
Packages == {[m |-> m, p |-> Placed(p)] : m \in MetaTables, p \in PartTables}

Init == a \in Packages /\ b \in Packages
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Blank(X) == [k \in 1..Len(X.m) |-> [n |-> <<>>, d |-> X.m[k].d]]
MetasAsMap(X) == {<<x.i, x.r, x.s, x.d>> : x \in Range(X.m)}
PartsAsMap(X) == {<<x.i, x.s, x.d, x.f, x.t, x.c>> : x \in Range(X.p)}
Rep(A, B) == MetaReport(A, B, Blank(A), Blank(B))
\* nothing is reported exactly if both hold the same
Same == /\ (\A k \in DOMAIN Rep(a, b) : Rep(a, b)[k].k = "=") <=> MetasAsMap(a) = MetasAsMap(b)
        /\ (\A w \in PartReport(a, b) : "=" \in w.k) <=> PartsAsMap(a) = PartsAsMap(b)
\* the other way round, + and - change places
Swap(k) == CASE k = "+" -> "-" [] k = "-" -> "+" [] OTHER -> k
Marked(r) == {<<r[k].k, r[k].i>> : k \in DOMAIN r}
Symmetric == /\ Marked(Rep(b, a)) = {<<Swap(x[1]), x[2]>> : x \in Marked(Rep(a, b))}
             /\ {<<w.k, w.t.i>> : w \in PartReport(b, a)} = {<<{Swap(k) : k \in w.k}, w.t.i>> : w \in PartReport(a, b)}
\* every entry and part of either package is reported once
Complete == /\ Len(Rep(a, b)) = Cardinality({<<x.i, x.r>> : x \in Range(a.m) \cup Range(b.m)})
            /\ Cardinality(PartReport(a, b)) = Cardinality({x.i : x \in Range(a.p) \cup Range(b.p)})
EmitInv == (Emit /\ a = b) => PrintT("@@" \o ToJson([m |-> a.m, p |-> a.p]))
=============================================================================
