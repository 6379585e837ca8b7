------------------------- MODULE BpakMerkleTrace -------------------------
(* Recorded runs of the tree writer: announce, feed in pieces, finish. *)
EXTENDS BpakMerkle, Json, TLC
VARIABLES tid, l,
          ann,   \* announced [b, r] (blocks, rest)
          fed,   \* data fed so far, [b, r]
          live,  \* a writer: "no", "at work", or "done" when its root is known
          root   \* that root
tvars == <<tid, l, ann, fed, live, root>>
Traces == JsonDeserialize("traces.json")
T == Traces[tid]
Nil == [b |-> 0, r |-> 0]
Block == 4096

Sum(x, y) == LET r == x.r + y.r IN [b |-> x.b + y.b + r \div Block, r |-> r % Block]
Leq(x, y) == x.b < y.b \/ (x.b = y.b /\ x.r <= y.r)

FactOf(e) == LET S == {e.facts[k] : k \in 1..Len(e.facts)} IN
    [b \in {x[1] : x \in S} |-> (CHOOSE x \in S : x[1] = b)[2]]
HashOf(F, b) == IF b \in DOMAIN F THEN F[b] ELSE 0 - 1

TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ ann = Nil /\ fed = Nil /\ live = "no" /\ root = 0 - 1
Fits(e) == e.ok => e.tb = TreeBlocks(e.n.b) /\ e.tr = 0
Result(e) == LET F == FactOf(e) IN
             /\ e.root = RootOf(e.leaves, F)
             /\ e.tree = TreeOf(e.leaves, F)
Act(e) ==
    CASE e.a = "size" ->      \* the size of a tree
            /\ (/\ e.ok = Possible(e.n.b, e.n.r) /\ Fits(e)) = TRUE
            /\ UNCHANGED <<ann, fed, live, root>>
      [] e.a = "init" ->
            /\ (/\ e.ok = (Possible(e.n.b, e.n.r) /\ e.salt <= 32) /\ Fits(e)) = TRUE
            /\ ann' = e.n /\ fed' = Nil /\ live' = (IF e.ok THEN "at work" ELSE "no") /\ root' = 0 - 1
      [] e.a = "feed" ->
            \* more than announced is refused, and leaves the writer as it was
            /\ live # "no"
            /\ (e.ok = Leq(Sum(fed, e.n), ann)) = TRUE
            /\ fed' = (IF e.ok THEN Sum(fed, e.n) ELSE fed) /\ UNCHANGED <<ann, live, root>>
      [] e.a = "finish" ->
            \* too early it is refused, and leaves the writer as it was; it can be repeated
            /\ live # "no"
            /\ (e.ok = (fed = ann)) = TRUE
            /\ live' = (IF e.ok THEN "done" ELSE live) /\ UNCHANGED <<ann, fed, root>>
      [] e.a = "result" ->   \* what was written, after a successful finish
            /\ live = "done" /\ ann = fed /\ Len(e.leaves) = ann.b /\ ~e.outside
            /\ (Result(e) /\ (root = 0 - 1 \/ root = e.root)) = TRUE
            /\ root' = e.root /\ UNCHANGED <<ann, fed, live>>
      [] e.a = "package" ->  \* a tree made for a file added to a package
            /\ (e.ok = Possible(e.n.b, e.n.r)) = TRUE
            /\ (e.ok => Len(e.leaves) = e.n.b /\ e.data /\ Result(e)) = TRUE
            /\ UNCHANGED <<ann, fed, live, root>>
      [] OTHER -> FALSE
TraceStep == /\ l <= Len(T) /\ Act(T[l]) /\ l' = l + 1 /\ UNCHANGED tid
TraceDone == l > Len(T) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceStep \/ TraceDone]_tvars
=============================================================================
