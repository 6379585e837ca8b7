---------------------------- MODULE BpakTogether ----------------------------
(* Objects at work together.  Every object - an open package, a hash tree being
   written, a difference being made or applied, a package being decoded, a key
   store being searched - has a history of its own: what it has been asked so
   far.  What it answers, and what it leaves behind, is a function of that
   history alone; that other objects go on in between, even in the middle of one
   of its operations, is nothing it can tell.

   known[o] is what object o answers when nothing else is at work: a sequence of
   answers and what is left in the end.  pos[o] is how far o has come. *)
EXTENDS Naturals, Sequences
\* the n-th answer of an object, however the others have come along
Answers(known, pos, o, a) == pos[o] < Len(known[o].ans) /\ a = known[o].ans[pos[o] + 1]
\* what there is once it has come to its end
Leaves(known, pos, o, x) == pos[o] = Len(known[o].ans) /\ x = known[o].left
=============================================================================
