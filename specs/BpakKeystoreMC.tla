--------------------------- MODULE BpakKeystoreMC ---------------------------
(* Loading step by step does what BpakKeystore says it has to do. *)
EXTENDS BpakKeystore, TLC, Json
CONSTANTS Ids, Stores, MaxParts, Emit
VARIABLES f, ks, id, cb, form, pc, at, res
vars == <<f, ks, id, cb, form, pc, at, res>>
Keys == {[ok |-> "yes", kind |-> 1, tok |-> "k1"], [ok |-> "yes", kind |-> 2, tok |-> "k2"], [ok |-> "no", kind |-> 0, tok |-> ""]}
PartLists == UNION {[1..n -> [id : Ids, key : Keys]] : n \in 0..MaxParts}
Unique(ps) == \A j, k \in DOMAIN ps : j # k => ps[j].id # ps[k].id
No == [ok |-> FALSE, id |-> "", kind |-> 0, tok |-> ""]
\* forms of the file: fine, cut in the header, with an invalid table, empty
Init == /\ form \in {"fine", "cut", "bad", "gone"}
        /\ f \in [wf : {TRUE}, prov : {<<>>} \cup {<<s>> : s \in Stores}, parts : {ps \in PartLists : Unique(ps)}]
        /\ (form # "fine" => f.prov = <<>> /\ f.parts = <<>>)
        /\ ks \in Stores /\ id \in Ids /\ cb \in {"none", "agrees", "refuses"}
        /\ pc = "open" /\ at = 0 /\ res = No
Keep == UNCHANGED <<f, ks, id, cb, form>>
Refuse == pc' = "done" /\ UNCHANGED <<at, res>> /\ Keep
On(c) == pc' = c /\ UNCHANGED <<at, res>> /\ Keep
Step ==
    \/ pc = "open" /\ (IF form = "fine" THEN On("check") ELSE Refuse)
    \/ pc = "check" /\ (IF cb = "refuses" THEN Refuse ELSE On("store"))
    \/ pc = "store" /\ (IF f.prov # <<>> /\ f.prov[1] = ks THEN On("find") ELSE Refuse)
    \/ pc = "find" /\ (IF at = Len(f.parts) THEN Refuse
                       ELSE /\ at' = at + 1 /\ UNCHANGED res /\ Keep
                            /\ pc' = IF f.parts[at + 1].id = id THEN "parse" ELSE "find")
    \/ pc = "parse" /\ (IF f.parts[at].key.ok = "no" THEN Refuse
                        ELSE pc' = "done" /\ res' = [ok |-> TRUE, id |-> id, kind |-> f.parts[at].key.kind, tok |-> f.parts[at].key.tok]
                             /\ UNCHANGED at /\ Keep)
MCSpec == Init /\ [][Step]_vars
Sound == pc = "done" => LoadOK([f EXCEPT !.wf = form = "fine"], ks, id, cb, res)
EmitInv == (Emit /\ pc = "done") => PrintT("@@" \o ToJson([form |-> form, prov |-> f.prov, parts |-> f.parts, ks |-> ks, id |-> id, cb |-> cb, ok |-> res.ok]))
=============================================================================
