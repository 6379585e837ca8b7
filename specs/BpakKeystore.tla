---------------------------- MODULE BpakKeystore ----------------------------
(* Looking up keys.  A package f: [wf (readable and well formed), prov (<<>> or
   <<id>>: the keystore it says it is), parts (sequence of [id, key])], where
   key says what the bytes of the part are: [ok: "yes", "no" or "maybe" a key of
   a supported kind, kind, tok].  cb: the caller's check of the header ("none",
   "agrees", "refuses"). *)
EXTENDS Integers, Sequences, FiniteSets
Has(f, id) == {k \in DOMAIN f.parts : f.parts[k].id = id}
FirstOf(f, id) == CHOOSE k \in Has(f, id) : \A j \in Has(f, id) : k <= j
Open(f, ks, id, cb) == f.wf /\ cb # "refuses" /\ f.prov = <<ks>> /\ Has(f, id) # {}
\* what may come out: res = [ok, id, kind, tok]
LoadOK(f, ks, id, cb, res) ==
    LET key == f.parts[FirstOf(f, id)].key IN
    IF ~Open(f, ks, id, cb) THEN ~res.ok
    ELSE /\ key.ok = "no" => ~res.ok
         /\ key.ok = "yes" => res.ok
         /\ (res.ok /\ key.ok = "yes") => (res.id = id /\ res.kind = key.kind /\ res.tok = key.tok)
         /\ (res.ok /\ key.ok = "maybe") => res.id = id
\* a keystore in memory: ids of its keys; at = which one was handed out, 0 none
GetOK(verified, ids, id, ok, at) ==
    /\ ok => (verified /\ at \in DOMAIN ids /\ ids[at] = id)
    /\ (verified /\ \E k \in DOMAIN ids : ids[k] = id) => ok
    /\ ~ok => at = 0
\* source made of a package: all parts are keys, and it defines just them
SourceOK(f, ok, src) ==
    /\ (~f.wf \/ f.prov = <<>> \/ ~f.named \/ \E k \in DOMAIN f.parts : f.parts[k].key.ok = "no") => ~ok
    /\ (f.wf /\ f.prov # <<>> /\ f.named /\ \A k \in DOMAIN f.parts : f.parts[k].key.ok = "yes") => ok
    /\ (ok /\ \A k \in DOMAIN f.parts : f.parts[k].key.ok = "yes") =>
         /\ src.id = f.prov[1] /\ src.verified /\ Len(src.keys) = Len(f.parts)
         /\ \A k \in DOMAIN f.parts : src.keys[k] = [id |-> f.parts[k].id, kind |-> f.parts[k].key.kind, tok |-> f.parts[k].key.tok]
=============================================================================
