-------------------------- MODULE BpakMerkleMC --------------------------
(* A streaming tree writer, fed in arbitrary cuts, against the definition.
   Data is counted in units, Unit units per block; hashes are symbolic. *)
EXTENDS BpakMerkle, TLC, Json
CONSTANTS Unit,       \* units per data block
          MaxBlocks,  \* largest data, in blocks
          MaxCut,     \* largest piece fed at once, in units
          Emit
VARIABLES n,      \* announced blocks
          fed,    \* units fed
          cuts,   \* history: pieces, in order
          low,    \* entries of the lowest level, as written so far
          up,     \* levels above, built by finish, from the lowest
          done, root
vars == <<n, fed, cuts, low, up, done, root>>

ZeroTok == <<"zero">>
Leaf(k) == <<"d", k>>
HB(b) == <<"h", b>>
SymHash(F, b) == HB(b)

Init == /\ n \in 1..MaxBlocks /\ fed = 0 /\ cuts = <<>> /\ low = <<>> /\ up = <<>> /\ done = FALSE /\ root = <<>>

Feed(c) ==
    /\ ~done /\ fed + c <= n * Unit
    /\ fed' = fed + c /\ cuts' = (IF Emit THEN Append(cuts, c) ELSE cuts)
    \* every block completed by this piece adds one entry
    /\ low' = low \o [k \in 1..((fed + c) \div Unit - fed \div Unit) |-> Leaf(fed \div Unit + k)]
    /\ UNCHANGED <<n, up, done, root>>

Top == IF up = <<>> THEN BlocksOf(low) ELSE up[Len(up)]
\* after the last piece: one more level
Climb ==
    /\ ~done /\ fed = n * Unit /\ Len(Top) > 1
    /\ up' = Append(IF up = <<>> THEN <<Top>> ELSE up, BlocksOf([k \in 1..Len(Top) |-> HB(Top[k])]))
    /\ UNCHANGED <<n, fed, cuts, low, done, root>>
Finish ==
    /\ ~done /\ fed = n * Unit /\ Len(Top) = 1
    /\ done' = TRUE
    /\ root' = IF n = 1 THEN low[1] ELSE HB(Top[1])
    /\ up' = IF up = <<>> THEN <<Top>> ELSE up
    /\ UNCHANGED <<n, fed, cuts, low>>
Next == (\E c \in 1..MaxCut : Feed(c)) \/ Climb \/ Finish
MCSpec == Init /\ [][Next]_vars

Ref == [k \in 1..n |-> Leaf(k)]
Correct == done => /\ Flatten(up) = TreeOf(Ref, 0)
                   /\ root = RootOf(Ref, 0)
                   /\ Len(Flatten(up)) = TreeBlocks(n)
NoEarly == Len(low) <= n /\ (fed < n * Unit => ~done)
\* any data block decides the root: with distinct data, no other tree has this root
Covers == done => \A k \in 1..n : LET other == [Ref EXCEPT ![k] = <<"d", 0>>] IN
                      RootOf(other, 0) # root /\ TreeOf(other, 0) # Flatten(up)
EmitInv == (Emit /\ done) => PrintT("@@" \o ToJson([n |-> n, cuts |-> cuts]))
=============================================================================
