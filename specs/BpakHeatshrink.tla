-------------------------- MODULE BpakHeatshrink --------------------------
(* The heatshrink code: a bit stream of tokens.  1 followed by 8 bits is a
   literal; 0 followed by WindowBits (distance - 1) and LookBits (count - 1)
   copies from the output, where before its beginning there are zeros.  What
   is left at the end and is not a whole token is padding. *)
EXTENDS Integers, Sequences, SequencesExt, Functions
CONSTANTS WindowBits, LookBits
Pow2(n) == 2 ^ n
BitOf(bytes, i) == (bytes[(i \div 8) + 1] \div Pow2(7 - (i % 8))) % 2     \* i counts from 0
RECURSIVE BitsAt(_, _, _)
BitsAt(bytes, i, n) == IF n = 0 THEN 0 ELSE 2 * BitsAt(bytes, i, n - 1) + BitOf(bytes, i + n - 1)
RECURSIVE CopyBack(_, _, _)
CopyBack(out, dist, n) ==
    IF n = 0 THEN out
    ELSE CopyBack(Append(out, IF dist > Len(out) THEN 0 ELSE out[Len(out) + 1 - dist]), dist, n - 1)
\* one token at a time, at bit position i
TokenStep(bytes, s) ==
    LET left == 8 * Len(bytes) - s.i IN
    IF s.end THEN s
    ELSE IF left < 1 THEN [s EXCEPT !.end = TRUE]
    ELSE IF BitOf(bytes, s.i) = 1
         THEN IF left < 9 THEN [s EXCEPT !.end = TRUE]
              ELSE [s EXCEPT !.i = @ + 9, !.out = Append(@, BitsAt(bytes, s.i + 1, 8))]
         ELSE IF left < 1 + WindowBits + LookBits THEN [s EXCEPT !.end = TRUE]
              ELSE [s EXCEPT !.i = @ + 1 + WindowBits + LookBits,
                             !.out = CopyBack(@, BitsAt(bytes, s.i + 1, WindowBits) + 1,
                                              BitsAt(bytes, s.i + 1 + WindowBits, LookBits) + 1)]
\* a token is at least 9 bits, so there are at most as many tokens as bytes
Expand(bytes) ==
    FoldLeft(LAMBDA s, x : TokenStep(bytes, s), [i |-> 0, out |-> <<>>, end |-> FALSE], bytes).out
=============================================================================
