--------------------------- MODULE BpakMerkle ---------------------------
(* The hash tree of a data part (dm-verity layout).  A hash is a token, the
   zero entry is Zero; a tree block is a sequence of Arity entries.  HashOp(F, b) is
   the token of the salted hash of tree block b, given the facts F. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Arity,      \* hashes per tree block (128)
          MaxLevels,  \* levels the implementation supports
          HashOp(_, _),
          Zero        \* the entry of 32 zero bytes

CeilDiv(a, b) == (a + b - 1) \div b
PadBlock(s) == s \o [k \in 1..(Arity - Len(s)) |-> Zero]
MinOf(a, b) == IF a < b THEN a ELSE b
\* cut the entries of a level into zero padded blocks
BlocksOf(s) == [k \in 1..CeilDiv(Len(s), Arity) |->
                  PadBlock(SubSeq(s, (k - 1) * Arity + 1, MinOf(k * Arity, Len(s))))]

\* levels from the data up; s: the hashes of the data blocks, in order
RECURSIVE LevelsUp(_, _)
LevelsUp(s, F) ==
    LET b == BlocksOf(s) IN
    IF Len(b) = 1 THEN <<b>> ELSE <<b>> \o LevelsUp([k \in 1..Len(b) |-> HashOp(F, b[k])], F)

RECURSIVE Flatten(_)
Flatten(lv) == IF lv = <<>> THEN <<>> ELSE Flatten(Tail(lv)) \o Head(lv)   \* top level first
TreeOf(s, F) == Flatten(LevelsUp(s, F))
\* a single data block is its own root
RootOf(s, F) == IF Len(s) = 1 THEN s[1]
                   ELSE LET lv == LevelsUp(s, F) IN HashOp(F, lv[Len(lv)][1])

\* blocks of the tree over n data blocks
RECURSIVE LevelBlocks(_)
LevelBlocks(n) == LET b == CeilDiv(n, Arity) IN IF b = 1 THEN <<1>> ELSE <<b>> \o LevelBlocks(b)
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
TreeBlocks(n) == SumSeq(LevelBlocks(n))
\* lengths a tree can be made for
Possible(blocks, rest) == rest = 0 /\ blocks > 0 /\ Len(LevelBlocks(blocks)) <= MaxLevels
=============================================================================
