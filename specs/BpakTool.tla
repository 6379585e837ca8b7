----------------------------- MODULE BpakTool -----------------------------
(***************************************************************************)
(* The command-line tool: commands over a directory of files.              *)
(*                                                                         *)
(* fs: function from file names to                                         *)
(*    [k |-> "none"]                    no such file                       *)
(*    [k |-> "other", tok]              not a package                      *)
(*    [k |-> "pkg", h, t]               package: header and part contents, *)
(*                                      bytes behind the last part         *)
(* A command c is a record; c.a the action, c.f the package it names.      *)
(* What it does is the set Outcomes(c, fs) of [ok, fs]; ANY stands for a   *)
(* file nothing is said about.                                             *)
(***************************************************************************)
EXTENDS BpakFile

NONE == [k |-> "none"]
EMPTY == "e3b0c44298fc1c14"     \* digest of nothing
ANY == [k |-> "any"]
Other(tok) == [k |-> "other", tok |-> tok]
Pkg(h, t) == [k |-> "pkg", h |-> h, t |-> t]
Put(fs, n, x) == [fs EXCEPT ![n] = x]
ZERO == "00000000"
TRANSPORT_ID == "2d44bbfb"

Refusal(fs) == [ok |-> FALSE, fs |-> fs]
\* an editing operation on the package f; deleting cuts what is behind the last part
Edited(fs, f, res, cut) ==
    IF ~res.ok THEN Refusal(fs)
    ELSE LET old == fs[f] IN
         [ok |-> TRUE,
          fs |-> Put(fs, f, Pkg(res.h, IF old.t = W(0) THEN old.t ELSE IF cut THEN W(0)
                                       ELSE WMinus(old.t, WMinus(FileEnd(res.h), FileEnd(old.h)))))]
Looked(fs, ok) == [ok |-> ok, fs |-> fs]

\* an argument that is a name or, with 0x in front, the id itself
Ident(x) == IF x.hex # "" THEN x.hex ELSE x.name

\* c.hk, c.sk: 0 for a kind there is none of
Created(c, fs) ==
    IF c.hk = 0 \/ c.sk = 0 \/ (fs[c.f] # NONE /\ ~c.force /\ c.answer # "Y") THEN Refusal(fs)
    ELSE [ok |-> TRUE, fs |-> Put(fs, c.f, Pkg(Hashed([FreshHeader EXCEPT !.hk = c.hk, !.sk = c.sk]), W(0)))]

(* set: new text for an entry (of the package itself, not of a part), a number
   or an id where there was one, key id and key store id; all or nothing.
   c.v: [ok, s, d] the value; c.pads: the value filled up with zeros, by size *)
PadTok(c, n) == c.pads[CHOOSE k \in DOMAIN c.pads : c.pads[k].s = n].d
SetEntry(hd, c) ==
    IF c.m = "" THEN {Done(hd)}
    ELSE LET i == c.m K == MetaIdx(hd.m, i, ZERO) IN
    IF K = {} \/ c.enc = "unknown" THEN {Refused(hd)}
    ELSE LET k == First(K) IN
    IF c.enc # "text" THEN {IF c.v.ok /\ hd.m[k].s = c.v.s THEN Done([hd EXCEPT !.m[k].d = c.v.d]) ELSE Refused(hd)}
    ELSE IF c.v.s <= hd.m[k].s THEN {Done([hd EXCEPT !.m[k].d = PadTok(c, hd.m[k].s)])}
    ELSE \* it grows: in its place or at the end
         LET a == SetMetaRes([hd EXCEPT !.m = Without(@, k)], i, ZERO, c.v.s, c.v.d) IN
         IF a.ok THEN {a, Done([hd EXCEPT !.m[k].d = c.v.d, !.m[k].s = c.v.s])} ELSE {Refused(hd)}
SetKeys(res, c) == IF ~res.ok THEN res
                   ELSE Done([res.h EXCEPT !.kid = IF c.kid.given THEN Ident(c.kid) ELSE @,
                                           !.sid = IF c.sid.given THEN Ident(c.sid) ELSE @])
SetRes(hd, c) == IF c.m = "" /\ ~c.kid.given /\ ~c.sid.given THEN {Refused(hd)}
                 ELSE {SetKeys(r, c) : r \in SetEntry(hd, c)}

AddRes(hd, c) ==
    CASE c.what = "meta" -> IF ~c.v.ok THEN Refused(hd) ELSE SetMetaRes(hd, c.i, c.r, c.v.s, c.v.d)
      [] c.what = "file" -> IF ~c.there THEN Refused(hd) ELSE AddFileRes(hd, c.i, c.s, c.c, c.fl)
      [] c.what = "key" -> IF ~c.there THEN Refused(hd) ELSE AddFileRes(hd, c.i, c.s, c.c, c.fl)
      [] c.what = "merkle" -> IF ~c.there THEN Refused(hd) ELSE AddMerkleRes(hd, c.i, c.ti, c.s, c.c, c.fl, c.g)

DelRes(hd, c) == IF c.all THEN DeleteAllRes(hd, ~c.keep)
                 ELSE IF Ident(c.p) = ZERO THEN Refused(hd)
                 ELSE DeletePartRes(hd, Ident(c.p), ~c.keep)

\* c.sg: the signature made with the key, or read from the file
SignCmd(hd, c) == IF c.by = "key" THEN (IF c.able THEN SignRes(hd, c.sg) ELSE Refused(hd))
                  ELSE IF ~c.there THEN Refused(hd) ELSE InstallSigRes(hd, c.sg)

\* key the package asks for, out of a key store (c.store: [sid, keys])
StoreKey(hd, c) ==
    LET S == {k \in DOMAIN c.store.keys : c.store.keys[k].id = hd.kid} IN
    IF hd.sid # c.store.sid \/ S = {} THEN "" ELSE c.store.keys[First(S)].key
KeyOf(hd, c) == IF c.by = "key" THEN (IF c.able THEN c.key ELSE "") ELSE StoreKey(hd, c)
(* facts of the file: hd (digest of the header without signature), hf (key and
   value of the payload hash of what is there), mf, tids (hash trees) *)
TidOf(x, i) == x.tids[CHOOSE k \in DOMAIN x.tids : x.tids[k][1] = i][2]
Accepted(hd, c, x, L) ==
    /\ KeyOf(hd, c) # ""
    /\ SignedBy(L, hd.sg, KeyOf(hd, c), x.hd)
    /\ x.hf.k = HashKey(hd)
    /\ PhVal(hd.ph, x) = x.hf.v
    /\ TreesGood(hd, {x.mf[k] : k \in DOMAIN x.mf}, LAMBDA i : TidOf(x, i))

\* extract: exactly one of metadata and part
Wanted(c) == [m |-> Ident(c.m) # ZERO, p |-> Ident(c.p) # ZERO]
\* a package that is cut short
Short(hd) == \E k \in 1..Len(hd.p) : hd.p[k].c = "EOF"
ExtractOk(hd, c) == /\ Wanted(c).m # Wanted(c).p
                    /\ Wanted(c).m => MetaIdx(hd.m, Ident(c.m), Ident(c.r)) # {}
                    /\ Wanted(c).p => /\ PartIdx(hd.p, Ident(c.p)) # {}
                                      /\ hd.p[First(PartIdx(hd.p, Ident(c.p)))].c # "EOF"
                    /\ c.out # "nowhere"
Extracted(hd, c) == IF Wanted(c).m THEN [m |-> TRUE, tok |-> hd.m[First(MetaIdx(hd.m, Ident(c.m), Ident(c.r)))].d]
                    ELSE [m |-> FALSE, tok |-> hd.p[First(PartIdx(hd.p, Ident(c.p)))].c]

OutcomesOn(c, fs, hd) ==
    CASE c.a = "add" -> {Edited(fs, c.f, AddRes(hd, c), FALSE)}
      [] c.a = "set" -> {Edited(fs, c.f, r, FALSE) : r \in SetRes(hd, c)}
      [] c.a = "delete" -> {Edited(fs, c.f, DelRes(hd, c), TRUE)}
      [] c.a = "sign" -> {Edited(fs, c.f, SignCmd(hd, c), FALSE)}
      [] c.a = "tadd" -> {Edited(fs, c.f, SetMetaRes(hd, TRANSPORT_ID, Ident(c.p), 32, c.v.d), FALSE)}
      [] c.a = "extract" -> {[ok |-> ExtractOk(hd, c),
                              fs |-> IF ExtractOk(hd, c) /\ c.out # "" THEN Put(fs, c.out, ANY) ELSE fs]}
Outcomes(c, fs) ==
    CASE c.a = "create" -> {Created(c, fs)}
      [] c.a = "bad" -> {Refusal(fs)}            \* not a command
      [] c.a = "help" -> {Looked(fs, TRUE)}
      [] OTHER -> LET new == Put(fs, c.f, Pkg(Hashed(FreshHeader), W(0))) IN
                  IF fs[c.f].k = "pkg" THEN
                     \* what editing a package that is cut short gives is left open
                     IF Short(fs[c.f].h) /\ c.a # "extract" THEN {Refusal(fs), [ok |-> TRUE, fs |-> Put(fs, c.f, ANY)]}
                     ELSE OutcomesOn(c, fs, fs[c.f].h)
                  \* an empty file may become an empty package first
                  ELSE {Refusal(fs)} \cup (IF fs[c.f] = Other(EMPTY) THEN OutcomesOn(c, new, new[c.f].h) ELSE {})

-----------------------------------------------------------------------------
(* What show prints. *)
HashName(k) == CASE k = 1 -> "sha256" [] k = 2 -> "sha384" [] k = 3 -> "sha512" [] OTHER -> "Unknown"
SignName(k) == CASE k = 1 -> "rsa4096" [] k = 2 -> "prime256v1" [] k = 3 -> "secp384r1" [] k = 4 -> "secp521r1" [] OTHER -> "Unknown"
\* o: what was printed; x: facts (texts: per entry its name and printed form; hd1: digest
\* of the header with the right payload hash)
ShownOK(hd, o, x) ==
    /\ o.hash = HashName(hd.hk) /\ o.sign = SignName(hd.sk)
    /\ o.kid = hd.kid /\ o.sid = hd.sid
    /\ Len(o.m) = Len(hd.m)
    /\ \A k \in 1..Len(hd.m) : o.m[k] = [i |-> hd.m[k].i, s |-> hd.m[k].s, r |-> IF hd.m[k].r = ZERO THEN "" ELSE hd.m[k].r,
                                         n |-> x.texts[k].n, d |-> x.texts[k].d]
    /\ Len(o.p) = Len(hd.p)
    /\ \A k \in 1..Len(hd.p) :
         LET p == hd.p[k] IN
         o.p[k] = [i |-> p.i, s |-> p.s, d |-> p.d, x |-> HasFlag(p.f, FLAG_EXCLUDE), t |-> HasFlag(p.f, FLAG_TRANSPORT),
                   ts |-> IF HasFlag(p.f, FLAG_TRANSPORT) THEN p.t ELSE p.s]
    /\ x.hf.k = HashKey(hd)
    /\ o.hd = x.hd1
    /\ o.ph = x.hf.v
    /\ hd.pr = "" => o.warn = (PhVal(hd.ph, x) # x.hf.v)
    /\ "size" \in DOMAIN o => (o.size = FileEnd(hd) /\ o.inst = InstalledSize(hd) /\ o.used = FoldLeft(LAMBDA a, m : a + m.s, 0, hd.m))
\* show with one option: is there what is asked for, and the answer
AskedMeta(hd, c) == {k \in 1..Len(hd.m) : hd.m[k].i = Ident(c.m) /\ (c.p.given => hd.m[k].r = Ident(c.p))}
ShowOk(hd, c) ==
    CASE c.what = "meta" -> AskedMeta(hd, c) # {}
      [] c.what = "part" -> PartIdx(hd.p, Ident(c.p)) # {}
      [] c.what = "parthash" -> PartIdx(hd.p, Ident(c.p)) # {} /\ hd.p[First(PartIdx(hd.p, Ident(c.p)))].c # "EOF"
      [] c.what \in {"all", "hash"} -> ~Short(hd)
ShowGood(hd, c, o, x) ==
    CASE c.what = "meta" -> o.text = x.texts[First(AskedMeta(hd, c))].d
      [] c.what = "part" -> LET q == hd.p[First(PartIdx(hd.p, Ident(c.p)))] IN o.i = q.i /\ o.s = q.s
      [] c.what = "parthash" -> o.text = hd.p[First(PartIdx(hd.p, Ident(c.p)))].c
      [] c.what = "hash" -> o.text = x.hd1
      [] c.what = "all" -> ShownOK(hd, o, x)
=============================================================================
