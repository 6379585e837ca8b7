---------------------------- MODULE BpakDecode ----------------------------
(* What the decoder hands to the output, call by call.  Parts occupy cells of
   the output; a cell is good while it holds what it is to hold in the end.  A
   header may show a part as decoded only while all its cells are good.

   parts[k]: [coded, t, c1, c2 (cells c1..c2-1), lo, hi (bytes of the output),
   olo, ohi (bytes of the origin of the part)]. *)
EXTENDS Integers, Sequences, FiniteSets
Cells(p) == p.c1 .. (p.c2 - 1)
Whole(p, good) == Cells(p) \subseteq good
\* coded: what a header says of every part
Honest(parts, good, coded) ==
    \A k \in DOMAIN parts : /\ coded[k] => parts[k].coded
                            /\ (parts[k].coded /\ ~coded[k]) => Whole(parts[k], good)
Written(good, c1, c2, wrong) == (good \ wrong) \cup ((c1 .. (c2 - 1)) \ wrong)
=============================================================================
