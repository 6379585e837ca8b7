--------------------------- MODULE BpakToolTrace ---------------------------
(* Recorded histories of commands.  Every event tells what was run, its exit
   status, what it printed, and the new state of every file that changed. *)
EXTENDS BpakTool, BpakCompare, Json
VARIABLES tid, l, fs,
          seen,     \* the files as last observed
          ledger,   \* signatures made so far
          kept      \* a copy of the directory
tvars == <<tid, l, fs, seen, ledger, kept>>
I == INSTANCE BpakId
TrHash(F, b) == 0
T1 == INSTANCE BpakTransport WITH Arity <- 128, MaxLevels <- 4, HashOp <- TrHash, Zero <- 0

Traces == JsonDeserialize("traces.json")
T == Traces[tid]
Names == {"A", "B", "C", "O"}

Take(s) == IF s.k = "pkg" THEN Pkg(FromProj(s.proj), s.proj.tail) ELSE IF s.k = "none" THEN NONE ELSE Other(s.tok)
\* does the file observed show what the specification says
Shows(x, s) ==
    /\ x.k = s.k
    /\ x.k = "other" => x.tok = s.tok
    /\ x.k = "pkg" => /\ Norm(x.h, s) = FromProj(s.proj) /\ x.t = s.proj.tail
                      /\ OffsetsOK(s.proj) /\ \A k \in 1..Len(s.proj.p) : s.proj.p[k].z
Observe(e) == seen' = [n \in Names |-> IF n \in DOMAIN e.obs THEN e.obs[n] ELSE seen[n]]
Become(e, r) == /\ e.ok = r.ok
                /\ fs' = [n \in Names |-> IF r.fs[n] = ANY THEN Take(seen'[n]) ELSE r.fs[n]]
                /\ \A n \in Names : (r.fs[n] = fs[n] => n \notin DOMAIN e.obs) /\ (r.fs[n] # ANY => Shows(fs'[n], seen'[n]))
\* nothing but these files changed
Touched(e) == DOMAIN e.obs \subseteq Names

PrintedText(m) == IF Len(m.b) < I!Needs(m.id) THEN <<>> ELSE LET t == I!MetaText(m.id, m.b) IN IF Len(t) < 128 THEN t ELSE <<>>
Texts(mb) == [k \in 1..Len(mb) |-> [n |-> I!NameOf(mb[k].id), d |-> PrintedText(mb[k])]]
Facts(e) == [hf |-> e.x.hf, hd1 |-> e.x.hd1,
             texts |-> Texts(e.x.mb)]

IsPkg(e) == fs[e.f].k = "pkg"
Hd(e) == fs[e.f].h
Same(e) == DOMAIN e.obs = {} /\ UNCHANGED <<fs, seen>>

\* an empty file may be made an empty package by a command that is refused then
Initialised(e) ==
    /\ "f" \in DOMAIN e /\ "ok" \in DOMAIN e /\ ~e.ok /\ DOMAIN e.obs = {e.f} /\ fs[e.f] = Other(EMPTY)
    /\ Observe(e)
    /\ fs' = Put(fs, e.f, Pkg(Hashed(FreshHeader), W(0)))
    /\ Shows(fs'[e.f], seen'[e.f])
    /\ UNCHANGED <<ledger, kept>>

Act(e) ==
    CASE e.a = "load" ->     \* put there from outside
            /\ Observe(e)
            /\ fs' = [n \in Names |-> IF n \in DOMAIN e.obs THEN Take(seen'[n]) ELSE fs[n]]
            /\ UNCHANGED <<ledger, kept>>
      [] e.a = "keep" -> kept' = <<fs, seen>> /\ UNCHANGED <<fs, seen, ledger>>
      [] e.a = "bring" -> fs' = kept[1] /\ seen' = kept[2] /\ UNCHANGED <<ledger, kept>>
      [] e.a = "extsign" -> \* somebody signs the digest outside
            ledger' = ledger \cup {[sg |-> e.sg, key |-> e.key, hd |-> e.hd]} /\ UNCHANGED <<fs, seen, kept>>
      [] e.a = "show" ->
            /\ e.ok = (IsPkg(e) /\ ShowOk(Hd(e), e))
            /\ (e.ok => ShowGood(Hd(e), e, e.out, Facts(e))) = TRUE
            /\ Same(e) /\ UNCHANGED <<ledger, kept>>
      [] e.a = "compare" ->
            /\ IF IsPkg(e) /\ fs[e.g].k = "pkg"
               THEN CompareOK(seen[e.f].proj, seen[e.g].proj, Texts(e.tA), Texts(e.tB), Range(e.known), e.ok, e.out)
               ELSE ~e.ok
            /\ Same(e) /\ UNCHANGED <<ledger, kept>>
      [] e.a = "genid" -> e.ok /\ e.text = e.want /\ Same(e) /\ UNCHANGED <<ledger, kept>>
      [] e.a = "verify" ->
            /\ e.ok = (IsPkg(e) /\ Accepted(Hd(e), e, e.x, ledger))
            /\ e.says = e.ok /\ Same(e) /\ UNCHANGED <<ledger, kept>>
      [] e.a = "tenc" ->      \* coded for transport into another file
            /\ Observe(e)
            /\ DOMAIN e.obs \subseteq {e.o}
            /\ e.ok = (e.readable /\ T1!EncodeOk(e.parts, e.uuid, e.org))
            /\ e.ok => /\ Len(e.res) = Len(e.parts)
                       /\ \A k \in DOMAIN e.parts : T1!Encoded(e.parts[k], e.res[k])
                       /\ e.reshdr = e.hdr /\ e.len = 4096 + T1!SumOf(e.res)
            /\ fs' = [n \in Names |-> IF n \in DOMAIN e.obs THEN Take(seen'[n]) ELSE fs[n]]
            /\ UNCHANGED <<ledger, kept>>
      [] e.a = "tdec" ->
            /\ Observe(e)
            /\ DOMAIN e.obs \subseteq {e.o}
            /\ e.ok = (e.readable /\ T1!DecodeOk(e.parts, e.uuid, e.org))
            /\ e.ok => /\ Len(e.res) = Len(e.parts)
                       /\ \A k \in DOMAIN e.parts : T1!Decoded(e.parts[k], e.res[k])
                       /\ e.reshdr = e.hdr /\ e.len = 4096 + T1!SumOf(e.res)
            /\ fs' = [n \in Names |-> IF n \in DOMAIN e.obs THEN Take(seen'[n]) ELSE fs[n]]
            /\ UNCHANGED <<ledger, kept>>
      [] e.a \in {"create", "add", "set", "delete", "sign", "tadd", "extract", "bad", "help"} ->
            /\ Observe(e)
            /\ \E r \in Outcomes(e, fs) : Become(e, r)
            /\ (e.a = "extract" /\ e.ok) =>
                 IsPkg(e) /\ LET w == Extracted(Hd(e), e) IN w.tok = (IF w.m THEN e.mtok ELSE e.ptok)
            \* what was made is a signature outside of the tool, too
            /\ (e.a = "sign" /\ e.by = "key" /\ e.ok) => e.ext
            /\ ledger' = IF e.a = "sign" /\ e.by = "key" /\ e.ok
                         THEN ledger \cup {[sg |-> e.sg, key |-> e.key, hd |-> e.hd]} ELSE ledger
            /\ UNCHANGED kept
      [] OTHER -> FALSE        \* a crash, or output that cannot be read

TraceInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ ledger = {}
             /\ fs = [n \in Names |-> NONE] /\ seen = [n \in Names |-> NONE] /\ kept = <<fs, seen>>
TraceStep == /\ l <= Len(T)
             /\ LET e == T[l] IN Touched(e) /\ (Initialised(e) \/ Act(e))
             /\ l' = l + 1 /\ UNCHANGED tid
TraceDone == l > Len(T) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceStep \/ TraceDone]_tvars
=============================================================================
