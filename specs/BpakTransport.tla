-------------------------- MODULE BpakTransport --------------------------
(* Coding a package for transport and decoding it again.

   A part: [id, n (length decoded), coded, s (length stored), ea, da (coding
   and decoding algorithm, "" without transport metadata), have (all stored
   bytes are in the file), tok (token of the stored bytes), app, tree].
   app: what the stored bytes give, taken as a patch on the part of the origin:
   [ok, n, tok].  tree: what regenerating the part gives: [src (position of
   the data part, 0: none), salt, blocks, rest (length of the data), root, want
   (root hash in the header, "" none), tok].
   An origin: [present, uuid, parts: sequence of [id, have]]. *)
EXTENDS BpakMerkle, TLC
DiffAlgs == {"bsdiff", "bsdiff-lzma", "bsdiff-no-comp"}
PatchAlgs == {"bspatch", "bspatch-lzma", "bspatch-no-comp"}
Matched(ea, da) == <<ea, da>> \in {<<"bsdiff", "bspatch">>, <<"bsdiff-lzma", "bspatch-lzma">>,
                                   <<"bsdiff-no-comp", "bspatch-no-comp">>, <<"remove-data", "merkle-generate">>}
SameKind(uuid, o) == o.present => (uuid # "" /\ o.uuid = uuid)
InOrigin(o, id) == o.present /\ \E k \in DOMAIN o.parts : o.parts[k].id = id
OriginHas(o, id) == o.present /\ \E k \in DOMAIN o.parts : o.parts[k].id = id /\ o.parts[k].have

\* ---- coding
Carried(p) == p.coded \/ p.ea = ""
CanEncode(p, o) ==
    IF Carried(p) THEN p.have
    ELSE IF p.ea \in DiffAlgs THEN p.have /\ OriginHas(o, p.id)
    ELSE p.ea = "remove-data"
EncodeOk(parts, uuid, o) == SameKind(uuid, o) /\ \A k \in DOMAIN parts : CanEncode(parts[k], o)
\* q is p coded
Encoded(p, q) ==
    /\ q.id = p.id /\ q.n = p.n
    /\ IF Carried(p) THEN q.coded = p.coded /\ q.s = p.s /\ q.tok = p.tok
       ELSE /\ q.coded
            /\ IF p.ea = "remove-data" THEN q.s = 0
               ELSE q.app.ok /\ q.app.n = p.n /\ q.app.tok = p.tok

\* ---- decoding
Regenerated(parts, k) ==
    LET t == parts[k].tree IN
    /\ parts[k].s = 0
    /\ t.src \in 1..(k - 1) /\ t.salt
    /\ Possible(t.blocks, t.rest) /\ parts[k].n = TreeBlocks(t.blocks) * 4096
    /\ t.want # "" => t.root = t.want
CanDecode(parts, k, o) ==
    LET p == parts[k] IN
    /\ p.have
    /\ IF ~p.coded \/ p.da = "" THEN p.s = p.n
       ELSE IF p.da \in PatchAlgs THEN InOrigin(o, p.id) /\ p.app.ok /\ p.app.n = p.n
       ELSE p.da = "merkle-generate" /\ Regenerated(parts, k)
DecodeOk(parts, uuid, o) == SameKind(uuid, o) /\ \A k \in DOMAIN parts : CanDecode(parts, k, o)
Content(p) == IF ~p.coded \/ p.da = "" THEN p.tok
              ELSE IF p.da \in PatchAlgs THEN p.app.tok ELSE p.tree.tok
\* q is p decoded
Decoded(p, q) == q.id = p.id /\ q.n = p.n /\ ~q.coded /\ q.s = p.n /\ q.tok = Content(p)
RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE Head(s).s + SumOf(Tail(s))
=============================================================================
