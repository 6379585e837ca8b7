--------------------------- MODULE BpakDecodeMC ---------------------------
(* The decoder as a sequence of calls to the outside, any of which can fail
   and after any of which the power can go. *)
EXTENDS BpakDecode, TLC, Json
CONSTANTS MaxParts, Width, Emit
Kinds == {"plain", "copy", "diff", "tree", "short", "long", "badtree"}
VARIABLES kinds, shown,      \* what the last header on the output shows
          good, cur, pc, at, fault
vars == <<kinds, shown, good, cur, pc, at, fault>>
Parts == [k \in DOMAIN kinds |-> [coded |-> kinds[k] # "plain", t |-> 0, c1 |-> (k - 1) * Width + 1, c2 |-> k * Width + 1,
                                  lo |-> (k - 1) * Width, hi |-> k * Width, olo |-> 0, ohi |-> 0]]
AsIn == [k \in DOMAIN kinds |-> Parts[k].coded]
P == Parts[cur]
Kind == kinds[cur]
NoFault == [part |-> 0, call |-> "none"]
Init == /\ kinds \in UNION {[1..n -> Kinds] : n \in 1..MaxParts}
        /\ shown = AsIn /\ good = {} /\ cur = 1 /\ pc = "start" /\ at = 0 /\ fault = NoFault
Fail(c) == fault' = [part |-> cur, call |-> c] /\ pc' = "stopped" /\ UNCHANGED <<kinds, shown, good, cur, at>>
Stop == pc' = "stopped" /\ UNCHANGED <<kinds, shown, good, cur, at, fault>>
Start == /\ pc = "start"
         /\ \/ Fail("header")
            \/ /\ pc' = "feed" /\ at' = 0 /\ UNCHANGED <<kinds, shown, good, cur, fault>>
Cell == P.c1 + at
Feed == /\ pc = "feed"
        /\ IF Kind \in {"tree", "badtree"} THEN pc' = "zero" /\ UNCHANGED <<kinds, shown, good, cur, at, fault>>
           ELSE IF at = Width \/ (Kind = "short" /\ at = Width - 1)
                THEN pc' = "finish" /\ UNCHANGED <<kinds, shown, good, cur, at, fault>>
           ELSE \/ (Kind \notin {"plain", "copy"} /\ Fail("origin"))
                \/ Fail("write")
                \/ /\ good' = Written(good, Cell, Cell + 1, {})
                   /\ at' = at + 1 /\ UNCHANGED <<kinds, shown, cur, pc, fault>>
\* trees: cells are cleared first, then written
Zero == /\ pc = "zero"
        /\ IF at = Width THEN pc' = "tree" /\ at' = 0 /\ UNCHANGED <<kinds, shown, good, cur, fault>>
           ELSE \/ Fail("write")
                \/ /\ good' = Written(good, Cell, Cell + 1, {Cell}) /\ at' = at + 1
                   /\ UNCHANGED <<kinds, shown, cur, pc, fault>>
Tree == /\ pc = "tree"
        /\ IF at = Width THEN pc' = "finish" /\ UNCHANGED <<kinds, shown, good, cur, at, fault>>
           ELSE \/ Fail("read") \/ Fail("write")
                \/ /\ good' = Written(good, Cell, Cell + 1, IF Kind = "badtree" THEN {Cell} ELSE {}) /\ at' = at + 1
                   /\ UNCHANGED <<kinds, shown, cur, pc, fault>>
\* a part too short or too long or a tree with another root is given up
Finish == /\ pc = "finish"
          /\ IF Kind \in {"short", "long", "badtree"} THEN Stop
             ELSE \/ Fail("lastheader")
                  \/ /\ shown' = [shown EXCEPT ![cur] = FALSE]
                     /\ IF cur = Len(kinds) THEN pc' = "done" /\ UNCHANGED cur ELSE pc' = "start" /\ cur' = cur + 1
                     /\ UNCHANGED <<kinds, good, at, fault>>
MCSpec == Init /\ [][Start \/ Feed \/ Zero \/ Tree \/ Finish]_vars

\* whenever the power goes
Sound == Honest(Parts, good, shown)
Ends == pc = "done" => \A k \in DOMAIN kinds : ~shown[k] /\ Whole(Parts[k], good)
Refuses == (\E k \in DOMAIN kinds : kinds[k] \in {"short", "long", "badtree"}) => pc # "done"
EmitInv == (Emit /\ pc \in {"done", "stopped"}) => PrintT("@@" \o ToJson([kinds |-> kinds, fault |-> fault, at |-> at, pc |-> pc]))
=============================================================================
