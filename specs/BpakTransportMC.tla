------------------------- MODULE BpakTransportMC -------------------------
(* One package through coding, an accident on the way, and decoding. *)
EXTENDS BpakTransport, Json
CONSTANTS MaxItems, Emit
MCHash(F, b) == 0
Items == {"plain", "diff", "mix", "fsp", "fsd", "badenc", "baddec", "rmonly", "pre", "carry"}
EncOrigins == {"none", "ok", "uuid", "nouuid", "nopart"}
DecOrigins == EncOrigins \cup {"changed"}
Accidents == {"none", "cut", "flip", "root", "salt", "nodata", "data", "length", "nouuid"}
VARIABLES items, eorg, st, enc, acc, dorg, dec, junk
vars == <<items, eorg, st, enc, acc, dorg, dec, junk>>

NoApp == [ok |-> FALSE, n |-> 0, tok |-> "none"]
NoTree == [src |-> 0, salt |-> FALSE, blocks |-> 0, rest |-> 0, root |-> "", want |-> "", tok |-> ""]
Base(id, n, tok) == [id |-> id, n |-> n, coded |-> FALSE, s |-> n, ea |-> "", da |-> "", have |-> TRUE, tok |-> tok,
                     app |-> NoApp, tree |-> NoTree]
TheTree(k) == [src |-> 0, salt |-> TRUE, blocks |-> 1, rest |-> 0, root |-> "r", want |-> "r", tok |-> "t" \o ToString(k)]
PartsOf(it, k) ==
    LET id == ToString(k)
        b == Base(id, 4096, "c" \o id) IN
    CASE it = "plain" -> <<b>>
      [] it = "diff" -> <<[b EXCEPT !.ea = "bsdiff", !.da = "bspatch"]>>
      [] it = "mix" -> <<[b EXCEPT !.ea = "bsdiff-lzma", !.da = "bspatch-no-comp"]>>
      [] it = "fsp" -> <<b, [Base(id \o "t", 4096, "t" \o id) EXCEPT !.ea = "remove-data", !.da = "merkle-generate", !.tree = TheTree(k)]>>
      [] it = "fsd" -> <<[b EXCEPT !.ea = "bsdiff", !.da = "bspatch"],
                         [Base(id \o "t", 4096, "t" \o id) EXCEPT !.ea = "remove-data", !.da = "merkle-generate", !.tree = TheTree(k)]>>
      [] it = "badenc" -> <<[b EXCEPT !.ea = "?", !.da = "bspatch"]>>
      [] it = "baddec" -> <<[b EXCEPT !.ea = "bsdiff", !.da = "?"]>>
      [] it = "rmonly" -> <<[b EXCEPT !.ea = "remove-data", !.da = "?"]>>
      [] it = "pre" -> <<[b EXCEPT !.ea = "bsdiff", !.da = "bspatch", !.coded = TRUE, !.s = 7, !.tok = "x" \o id]>>
      [] it = "carry" -> <<[b EXCEPT !.coded = TRUE]>>
RECURSIVE Build(_, _)
Build(its, k) == IF its = <<>> THEN <<>> ELSE PartsOf(Head(its), k) \o Build(Tail(its), k + 1)
Parts == Build(items, 1)
Names == [k \in DOMAIN Parts |-> Parts[k].id]
Origin(o) == [present |-> o # "none",
              uuid |-> CASE o = "uuid" -> "v" [] o = "nouuid" -> "" [] OTHER -> "u",
              parts |-> IF o = "nopart" THEN <<>> ELSE [k \in DOMAIN Parts |-> [id |-> Parts[k].id, have |-> TRUE]]]
\* how a part comes out of the coder
Code(p) == IF Carried(p) THEN p
           ELSE IF p.ea = "remove-data" THEN [p EXCEPT !.coded = TRUE, !.s = 0]
           ELSE [p EXCEPT !.coded = TRUE, !.s = 10, !.app = [ok |-> TRUE, n |-> p.n, tok |-> p.tok]]
\* positions of the data parts of the trees
Src(ps, k) == IF k > 1 /\ ps[k].id = ps[k - 1].id \o "t" THEN k - 1 ELSE 0

Junk == {NoApp, [ok |-> TRUE, n |-> 4096, tok |-> "junk"], [ok |-> TRUE, n |-> 4097, tok |-> "junk"]}
Init == /\ items \in UNION {[1..n -> Items] : n \in 0..MaxItems} /\ eorg \in EncOrigins
        /\ st = "in" /\ enc = <<>> /\ acc = "none" /\ dorg = "none" /\ dec = <<>> /\ junk = NoApp
EncodeStep == /\ st = "in"
              /\ IF EncodeOk(Parts, "u", Origin(eorg))
                 THEN st' = "coded" /\ enc' = [k \in DOMAIN Parts |-> Code(Parts[k])]
                 ELSE st' = "refused" /\ enc' = enc
              /\ UNCHANGED <<items, eorg, acc, dorg, dec, junk>>
Accident == /\ st = "coded" /\ st' = "sent"
            /\ acc' \in Accidents /\ dorg' \in DecOrigins /\ junk' \in Junk
            /\ UNCHANGED <<items, eorg, enc, dec>>
\* what the decoder finds
Last == Len(enc)
Received ==
    [k \in DOMAIN enc |->
       LET p == enc[k]
           spoiled == dorg # "ok" \/ ~Matched(p.ea, p.da) \/ (acc = "flip" /\ k = 1) \/ p.tok = "x" \o p.id
           src == Src(enc, k)
           datagone == acc = "nodata" /\ src > 0
           wrongdata == src > 0 /\ ((enc[src].coded /\ (dorg # "ok" \/ (acc = "flip" /\ src = 1))) \/ acc = "data") IN
       [p EXCEPT !.have = ~(acc = "cut" /\ k = Last),
                 !.n = IF acc = "length" /\ k = Last THEN p.n + 512 ELSE p.n,
                 \* the length of an uncoded part is that of what is stored of it
                 !.s = IF acc = "length" /\ k = Last /\ ~p.coded THEN p.n + 512 ELSE p.s,
                 !.app = IF p.coded /\ spoiled THEN junk ELSE p.app,
                 !.tree = [p.tree EXCEPT !.src = IF datagone THEN 0 ELSE src,
                                         !.salt = ~(acc = "salt"),
                                         !.root = IF acc = "root" \/ wrongdata THEN "other" ELSE @]]]
Damaged == acc = "length" /\ Last > 0 /\ ~enc[Last].coded
DecodeStep == /\ st = "sent"
              /\ IF DecodeOk(Received, IF acc = "nouuid" THEN "" ELSE "u", Origin(dorg)) /\ ~Damaged
                 THEN st' = "decoded" /\ dec' = [k \in DOMAIN enc |-> [Received[k] EXCEPT !.coded = FALSE, !.s = Received[k].n, !.tok = Content(Received[k])]]
                 ELSE st' = "stopped" /\ dec' = dec
              /\ UNCHANGED <<items, eorg, enc, acc, dorg, junk>>
MCSpec == Init /\ [][EncodeStep \/ Accident \/ DecodeStep]_vars

Good == \A k \in DOMAIN items : items[k] \in {"plain", "diff", "fsp", "fsd"}
NeedsOrigin == \E k \in DOMAIN items : items[k] \in {"diff", "fsd", "mix", "baddec"}
\* coding and decoding are inverse
RoundTrip == (Good /\ st \in {"decoded", "stopped"} /\ acc = "none" /\ dorg = "ok") =>
                /\ st = "decoded" /\ Len(dec) = Len(Parts)
                /\ \A k \in DOMAIN dec : Decoded(Parts[k], dec[k])
CodedRight == st = "coded" => \A k \in DOMAIN Parts : Encoded(Parts[k], enc[k])
\* what must not go through does not
NoWrong == st = "decoded" =>
             /\ \A k \in DOMAIN dec : dec[k].n = Received[k].n
             /\ NeedsOrigin => dorg \in {"ok", "changed"}
             /\ dorg \notin {"uuid", "nouuid"}
             /\ acc = "cut" => Last = 0
             /\ \A k \in DOMAIN dec : enc[k].da = "merkle-generate" => (dec[k].tok = enc[k].tree.tok /\ acc \notin {"root", "salt", "nodata"})
             /\ \A k \in DOMAIN items : items[k] \notin {"baddec", "rmonly"}
EncRefuse == st = "coded" => /\ NeedsOrigin => eorg = "ok"
                             /\ eorg \notin {"uuid", "nouuid"} /\ \A k \in DOMAIN items : items[k] # "badenc"
EmitInv == (Emit /\ st \in {"refused", "decoded", "stopped"} /\ junk = NoApp) =>
              PrintT("@@" \o ToJson([items |-> items, eorg |-> eorg, acc |-> acc, dorg |-> dorg, st |-> st]))
=============================================================================
