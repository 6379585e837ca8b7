--------------------------- MODULE BpakVerify ---------------------------
(* What verification of a payload with hash trees has to establish.  A data
   part under consideration is a record
     n, r      stored size in blocks and rest
     hasroot, hassalt, hastree   what the header has for it
     root      token of the recorded root hash
     leaves    tokens of the salted hashes of its blocks, with the recorded salt
     have      the blocks found where its tree part starts, as entries
     facts     salted hashes of tree blocks *)
EXTENDS BpakMerkle

\* a single block is its own tree: only its one hash is ever looked at
TreeFits(p) ==
    IF p.n = 1 THEN Len(p.have) >= 1 /\ Len(p.have[1]) >= 1 /\ p.have[1][1] = p.leaves[1]
    ELSE p.have = TreeOf(p.leaves, p.facts)
PartGood(p) ==
    ~p.hasroot \/ /\ p.hassalt /\ p.hastree
                  /\ Possible(p.n, p.r)
                  /\ TreeFits(p)
                  /\ p.root = RootOf(p.leaves, p.facts)
\* phok: the payload hash in the header is that of the hashed parts
Accept(phok, ps) == phok /\ \A k \in DOMAIN ps : PartGood(ps[k])
=============================================================================
