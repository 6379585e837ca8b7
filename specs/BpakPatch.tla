---------------------------- MODULE BpakPatch ----------------------------
(* The patch format, one byte at a time.  A patch is a sequence of blocks:
   three signed numbers of NumLen bytes (little endian magnitude, sign in the
   top bit of the last), that many difference bytes, which are added to the
   origin from the current position on, and that many extra bytes; then the
   position moves by the third number. *)
EXTENDS Integers, Sequences, SequencesExt
CONSTANT NumLen
Huge == 500000000                 \* larger than anything that can be in a patch
Sat(n) == IF n > Huge THEN Huge ELSE IF n < 0 - Huge THEN 0 - Huge ELSE n

RECURSIVE Mag(_, _)
\* b: bytes, k: index; saturating
Mag(b, k) == LET byte == IF k = NumLen THEN b[k] % 128 ELSE b[k] IN
             IF k > NumLen THEN 0
             ELSE LET up == Mag(b, k + 1) IN
                  IF up >= Huge \div 256 THEN Huge ELSE Sat(byte + 256 * up)
Num(b) == IF b[NumLen] >= 128 THEN 0 - Mag(b, 1) ELSE Mag(b, 1)

PInit == [st |-> "ctrl", cb |-> <<>>, d |-> 0, x |-> 0, z |-> 0, op |-> 0, out |-> <<>>]
NextBlock(m) == [m EXCEPT !.st = "ctrl", !.cb = <<>>, !.op = Sat(@ + m.z)]
\* after the control numbers, or when a count has run out
Settle(m) == IF m.d > 0 THEN [m EXCEPT !.st = "diff"]
             ELSE IF m.x > 0 THEN [m EXCEPT !.st = "extra"]
             ELSE NextBlock(m)
Control(m, cb) ==
    LET d == Num(SubSeq(cb, 1, NumLen))
        x == Num(SubSeq(cb, NumLen + 1, 2 * NumLen))
        z == Num(SubSeq(cb, 2 * NumLen + 1, 3 * NumLen)) IN
    IF d < 0 \/ x < 0 THEN [m EXCEPT !.st = "bad"]
    ELSE Settle([m EXCEPT !.cb = cb, !.d = d, !.x = x, !.z = z])
PStep(O, m, b) ==
    CASE m.st = "ctrl" -> IF Len(m.cb) + 1 = 3 * NumLen THEN Control(m, Append(m.cb, b))
                          ELSE [m EXCEPT !.cb = Append(@, b)]
      [] m.st = "diff" -> IF m.op < 0 \/ m.op >= Len(O) THEN [m EXCEPT !.st = "bad"]
                          ELSE Settle([m EXCEPT !.out = Append(@, (O[m.op + 1] + b) % 256), !.op = @ + 1, !.d = @ - 1])
      [] m.st = "extra" -> Settle([m EXCEPT !.out = Append(@, b), !.x = @ - 1])
      [] m.st = "bad" -> m
PRun(O, P) == FoldLeft(LAMBDA m, b : PStep(O, m, b), PInit, P)
Complete(m) == m.st = "ctrl" /\ m.cb = <<>>

(* The same, declaratively: what a list of blocks [d, x, z] (difference bytes,
   extra bytes, move) stands for. *)
RECURSIVE Meaning(_, _, _)
Meaning(O, bl, pos) ==
    IF bl = <<>> THEN <<>>
    ELSE LET h == Head(bl) IN
         [k \in 1..Len(h.d) |-> (O[pos + k] + h.d[k]) % 256] \o h.x \o Meaning(O, Tail(bl), pos + Len(h.d) + h.z)
RECURSIVE Readable(_, _, _)
Readable(O, bl, pos) ==
    bl = <<>> \/ LET h == Head(bl) IN
                 /\ Len(h.d) > 0 => (pos >= 0 /\ pos + Len(h.d) <= Len(O))
                 /\ Readable(O, Tail(bl), pos + Len(h.d) + h.z)
=============================================================================
