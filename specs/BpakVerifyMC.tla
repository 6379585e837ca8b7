-------------------------- MODULE BpakVerifyMC --------------------------
(* Packages with up to two data parts with trees, and an adversary who makes
   up to MaxFaults changes, then recomputes everything unprotected (payload
   hash, signature).  Hashes are symbolic and depend on the salt. *)
EXTENDS BpakVerify, TLC, Json
CONSTANTS Sizes,      \* data sizes in blocks
          MaxFaults, Emit
VARIABLES ps,     \* the parts, as the header and payload present them
          orig,   \* the same before any change
          flt     \* history: the changes made
vars == <<ps, orig, flt>>

ZeroTok == <<"zero">>
SymHash(F, b) == <<"h", F, b>>       \* facts are the salt here
DataHash(salt, d) == <<"b", salt, d>>
Blocks(tag, n) == [k \in 1..n |-> <<tag, k>>]
\* a part as made by the tool
Made(tag, n) ==
    LET lv == [k \in 1..n |-> DataHash(tag, <<tag, k>>)] IN
    [n |-> n, r |-> 0, hasroot |-> TRUE, hassalt |-> TRUE, hastree |-> TRUE, root |-> RootOf(lv, tag),
     have |-> TreeOf(lv, tag), data |-> Blocks(tag, n), salt |-> tag]
\* what a verifier sees
View(p) == [n |-> p.n, r |-> p.r, hasroot |-> p.hasroot, hassalt |-> p.hassalt, hastree |-> p.hastree, root |-> p.root,
            leaves |-> [k \in 1..p.n |-> DataHash(p.salt, p.data[k])], have |-> p.have, facts |-> p.salt]
Views == [k \in DOMAIN ps |-> View(ps[k])]
Verdict == Accept(TRUE, Views)

Init == /\ \E n \in Sizes : \E m \in Sizes \cup {0} :
              ps = IF m = 0 THEN <<Made("x", n)>> ELSE <<Made("x", n), Made("y", m)>>
        /\ orig = ps /\ flt = <<>>
Put(k, kind, a, b, p) == /\ Len(flt) < MaxFaults
                         /\ ps' = [ps EXCEPT ![k] = p]
                         /\ flt' = Append(flt, [p |-> k, k |-> kind, a |-> a, b |-> b]) /\ UNCHANGED orig
Junk == <<"junk">>
Data(k) == \E a \in 1..ps[k].n : Put(k, "data", a, 0, [ps[k] EXCEPT !.data[a] = Junk])
Entry(k) == \E a \in 1..Len(ps[k].have) : \E b \in 1..Arity :
              Put(k, IF ps[k].have[a][b] = Zero THEN "pad" ELSE "entry", a, b, [ps[k] EXCEPT !.have[a][b] = Junk])
Root(k) == Put(k, "root", 0, 0, [ps[k] EXCEPT !.root = Junk])
Salt(k) == Put(k, "salt", 0, 0, [ps[k] EXCEPT !.salt = "junk"])
NoRoot(k) == ps[k].hasroot /\ Put(k, "noroot", 0, 0, [ps[k] EXCEPT !.hasroot = FALSE])
NoSalt(k) == ps[k].hassalt /\ Put(k, "nosalt", 0, 0, [ps[k] EXCEPT !.hassalt = FALSE])
NoTree(k) == ps[k].hastree /\ Put(k, "notree", 0, 0, [ps[k] EXCEPT !.hastree = FALSE, !.have = <<>>])
Rest(k) == Put(k, "rest", 0, 0, [ps[k] EXCEPT !.r = 1])
\* consistent substitutes
NewTree(k) == LET lv == [j \in 1..ps[k].n |-> DataHash(ps[k].salt, ps[k].data[j])] IN
              Put(k, "newtree", 0, 0, [ps[k] EXCEPT !.have = TreeOf(lv, ps[k].salt)])
NewRoot(k) == LET lv == [j \in 1..ps[k].n |-> DataHash(ps[k].salt, ps[k].data[j])] IN
              Put(k, "newroot", 0, 0, [ps[k] EXCEPT !.root = RootOf(lv, ps[k].salt)])
OtherRoot(k) == Len(ps) = 2 /\ Put(k, "otherroot", 0, 0, [ps[k] EXCEPT !.root = ps[3 - k].root])
Swap(k) == Len(ps[k].have) > 1 /\ Put(k, "swap", 0, 0, [ps[k] EXCEPT !.have = Tail(ps[k].have) \o <<Head(ps[k].have)>>])
Next == \E k \in DOMAIN ps : Data(k) \/ Entry(k) \/ Root(k) \/ Salt(k) \/ NoRoot(k) \/ NoSalt(k) \/ NoTree(k)
                             \/ Rest(k) \/ NewTree(k) \/ NewRoot(k) \/ OtherRoot(k) \/ Swap(k)
MCSpec == Init /\ [][Next]_vars

\* unchanged packages pass
Complete == flt = <<>> => Verdict
\* with the root and the salt the header had, only the data the root was made for passes
Sound == Verdict => \A k \in DOMAIN ps :
            (ps[k].hasroot /\ ps[k].root = orig[k].root /\ ps[k].salt = orig[k].salt) =>
                /\ ps[k].data = orig[k].data
                /\ ps[k].n > 1 => ps[k].have = orig[k].have
\* a single change passes only where nothing is protected
OneChange == (Len(flt) = 1 /\ Verdict) =>
    \/ flt[1].k \in {"noroot", "newtree", "newroot"}
    \/ flt[1].k = "pad" /\ ps[flt[1].p].n = 1
EmitInv == Emit => PrintT("@@" \o ToJson([n |-> [k \in DOMAIN ps |-> ps[k].n], f |-> flt, v |-> Verdict]))
=============================================================================
