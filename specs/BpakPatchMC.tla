--------------------------- MODULE BpakPatchMC ---------------------------
(* A patcher that works on pieces with a small buffer, against the format. *)
EXTENDS BpakPatch, TLC, Json
CONSTANTS Origins, Nums, Datas, MaxLen, MaxPiece, Buf, Emit
MCOrigins == {<<>>, <<0>>, <<7, 255>>, <<1, 2, 3>>}
VARIABLES O, P,       \* origin and the patch so far
          cut,        \* history: lengths of the pieces handed over
          pend,       \* bytes collected for the next piece
          m,          \* the patcher: as PInit, but working piecewise
          ended
vars == <<O, P, cut, pend, m, ended>>
VIEW2 == <<O, P, pend, m, ended>>

Min2(a, b) == IF a < b THEN a ELSE b
\* consume a piece: as much as possible of the current kind at once, Buf at most
RECURSIVE Consume(_, _)
Consume(c, p) ==
    IF p = <<>> \/ c.st = "bad" THEN c
    ELSE CASE c.st = "ctrl" ->
                LET n == Min2(Len(p), 3 * NumLen - Len(c.cb))
                    cb == c.cb \o SubSeq(p, 1, n) IN
                Consume(IF Len(cb) = 3 * NumLen THEN Control(c, cb) ELSE [c EXCEPT !.cb = cb], SubSeq(p, n + 1, Len(p)))
           [] c.st = "diff" ->
                LET n == Min2(Buf, Min2(Len(p), c.d)) IN
                IF c.op < 0 \/ c.op + n > Len(O) THEN [c EXCEPT !.st = "bad"]
                ELSE Consume(Settle([c EXCEPT !.out = @ \o [k \in 1..n |-> (O[c.op + k] + p[k]) % 256],
                                              !.op = @ + n, !.d = @ - n]), SubSeq(p, n + 1, Len(p)))
           [] c.st = "extra" ->
                LET n == Min2(Len(p), c.x) IN
                Consume(Settle([c EXCEPT !.out = @ \o SubSeq(p, 1, n), !.x = @ - n]), SubSeq(p, n + 1, Len(p)))

Init == O \in Origins /\ P = <<>> /\ cut = <<>> /\ pend = <<>> /\ m = PInit /\ ended = FALSE
\* the kind of the next byte follows from the format
Now == PRun(O, P)
Alphabet == IF Now.st = "ctrl" THEN Nums ELSE Datas
Byte == /\ ~ended /\ Len(P) < MaxLen /\ Len(pend) < MaxPiece /\ Now.st # "bad"
        /\ \E b \in Alphabet : P' = Append(P, b) /\ pend' = Append(pend, b)
        /\ UNCHANGED <<O, cut, m, ended>>
Hand == /\ ~ended /\ pend # <<>>
        /\ m' = Consume(m, pend) /\ pend' = <<>> /\ cut' = Append(cut, Len(pend))
        /\ UNCHANGED <<O, P, ended>>
End == /\ ~ended /\ pend = <<>> /\ ended' = TRUE /\ UNCHANGED <<O, P, cut, pend, m>>
Next == Byte \/ Hand \/ End
MCSpec == Init /\ [][Next]_vars

\* between pieces the patcher is where the format says (a piece that fails
\* half way may have produced less)
Same == pend = <<>> => LET f == PRun(O, P) IN
            /\ (m.st = "bad") = (f.st = "bad")
            /\ f.st # "bad" => m = f
            /\ f.st = "bad" => IsPrefix(m.out, f.out)
\* complete patches mean what their blocks mean
RECURSIVE BlocksFrom(_, _)
BlocksFrom(p, acc) ==
    IF p = <<>> THEN acc
    ELSE LET d == Num(SubSeq(p, 1, NumLen))
             x == Num(SubSeq(p, NumLen + 1, 2 * NumLen))
             z == Num(SubSeq(p, 2 * NumLen + 1, 3 * NumLen))
             h == 3 * NumLen IN
         BlocksFrom(SubSeq(p, h + d + x + 1, Len(p)),
                    Append(acc, [d |-> SubSeq(p, h + 1, h + d), x |-> SubSeq(p, h + d + 1, h + d + x), z |-> z]))
Means == LET f == PRun(O, P) IN
         Complete(f) => LET bl == BlocksFrom(P, <<>>) IN Readable(O, bl, 0) /\ f.out = Meaning(O, bl, 0)
EmitInv == (Emit /\ ended) => PrintT("@@" \o ToJson([o |-> O, p |-> P, cut |-> cut, c |-> Complete(PRun(O, P))]))
=============================================================================
