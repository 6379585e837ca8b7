--------------------------- MODULE BpakSignMC ---------------------------
(* Signing, editing, tampering and replaying old signatures: verification
   accepts exactly what the owner of the key signed.  Also the source of
   scripts for real files. *)
EXTENDS BpakPackage, Json
CONSTANTS Keys, MaxLive, MaxLedger, MaxDepth, Emit
VARIABLES ledger,   \* sequence of [sg, key, hd]
          signed,   \* what the owners of the keys meant to sign: [sg, key, view]
          path
svars == <<disk, tail, mem, open, sv, ledger, signed, path>>

(* the header bytes under the signature; contents are not in the header *)
Digest(hd) == [m |-> hd.m, p |-> [k \in 1..Len(hd.p) |-> [hd.p[k] EXCEPT !.c = ""]], hk |-> hd.hk, kid |-> hd.kid,
               ph |-> hd.ph, x |-> hd.x]
(* everything a reader of the package relies on *)
View(hd) == [m |-> hd.m, hk |-> hd.hk, kid |-> hd.kid, x |-> hd.x,
             p |-> [k \in 1..Len(hd.p) |-> IF HasFlag(hd.p[k].f, FLAG_EXCLUDE) THEN [hd.p[k] EXCEPT !.c = ""] ELSE hd.p[k]]]
Accept(key) == /\ SignedBy({ledger[k] : k \in 1..Len(ledger)}, mem.sg, key, Digest(mem))
               /\ PayloadCurrent(mem, HashKey(disk), "none")

Acts == {[a |-> "addfile", i |-> "P", file |-> "f513", f |-> 0], [a |-> "addfile", i |-> "Q", file |-> "f513", f |-> 1],
         [a |-> "pdelpart", i |-> "P", rm |-> FALSE], [a |-> "pdelpart", i |-> "Q", rm |-> FALSE],
         [a |-> "keyid", v |-> "00000000"], [a |-> "keyid", v |-> "00000001"],
         [a |-> "tamperpart", i |-> "P"], [a |-> "tamperpart", i |-> "Q"], [a |-> "tamperhdr"], [a |-> "tampersig"],
         [a |-> "junk"], [a |-> "take"]}
     \cup {[a |-> "sign", key |-> k] : k \in Keys} \cup {[a |-> "old", n |-> n] : n \in 1..MaxLedger}

Flip(c) == IF c = "f513" THEN "f513~" ELSE "f513"
FlipS(s) == IF s[1] = 0 THEN s ELSE <<s[1], s[2], 1 - s[3]>>
Outside(q) == disk' = q /\ mem' = q /\ UNCHANGED <<tail, open, sv, ledger, signed>>
Inside(res) == Edit(res, FALSE) /\ UNCHANGED <<ledger, signed>>

Do(x) ==
    CASE x.a = "addfile" -> Inside(AddFileRes(mem, x.i, W(513), x.file, x.f))
      [] x.a = "pdelpart" -> Inside(DeletePartRes(mem, x.i, x.rm))
      [] x.a = "keyid" -> Inside(SetFieldRes(mem, "keyid", x.v))
      [] x.a = "tamperpart" -> LET K == PartIdx(disk.p, x.i) IN
            K # {} /\ Outside([disk EXCEPT !.p[First(K)].c = Flip(@)])
      [] x.a = "tamperhdr" -> Outside([disk EXCEPT !.x = IF @ = "" THEN "x" ELSE ""])
      [] x.a = "tampersig" -> disk.sg[1] > 0 /\ Outside([disk EXCEPT !.sg = FlipS(@)])
      [] x.a = "junk" -> Inside(InstallSigRes(mem, <<70, "junk", 0>>))
      [] x.a = "take" -> Inside(TakeSigRes(mem, 512))
      [] x.a = "sign" ->
            LET sg == <<71, ToString(Len(ledger) + 1), 0>> r == SignRes(mem, sg) IN
            /\ Len(ledger) < MaxLedger
            /\ Edit([r EXCEPT !.h.ph = <<"k", HashKey(disk)>>], FALSE)
            /\ ledger' = Append(ledger, [sg |-> sg, key |-> x.key, hd |-> Digest(mem')])
            /\ signed' = signed \cup {[sg |-> sg, key |-> x.key, view |-> View(disk')]}
      [] x.a = "old" -> x.n <= Len(ledger) /\ Inside(InstallSigRes(mem, ledger[x.n].sg))

MCInit == PInit /\ ledger = <<>> /\ signed = {} /\ path = <<>>
MCNext == \/ ~open /\ Open /\ UNCHANGED <<ledger, signed, path>>
          \/ /\ open
             /\ \E x \in Acts : Do(x) /\ path' = (IF Emit THEN Append(path, x) ELSE path)
             /\ mem' # mem
             /\ Len(mem'.p) <= MaxLive
MCSpec == MCInit /\ [][MCNext]_svars
MCView == <<disk, mem, open, ledger, signed>>

(* acceptance means: this key's owner signed this very package with this
   signature; and what was signed is accepted *)
Sound == open => \A k \in Keys : Accept(k) => \E g \in signed : g.sg = mem.sg /\ g.key = k /\ g.view = View(disk)
Complete == open => \A k \in Keys :
               (\E g \in signed : g.sg = mem.sg /\ g.key = k /\ g.view = View(disk)) /\ mem.ph = <<"k", HashKey(disk)>> => Accept(k)
OneKey == \A a, b \in Keys : open /\ Accept(a) /\ Accept(b) => a = b
Shallow == TLCGet("level") <= MaxDepth
EmitInv == Emit /\ open => PrintT("@@" \o ToJson([path |-> path]))
=============================================================================
