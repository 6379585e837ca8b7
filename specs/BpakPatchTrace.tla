-------------------------- MODULE BpakPatchTrace --------------------------
(* Recorded applications of patches and recorded diffs. *)
EXTENDS BpakPatch, BpakHeatshrink, TLC, Json
VARIABLES tid, l
tvars == <<tid, l>>
Traces == JsonDeserialize("traces.json")
T == Traces[tid]
TraceInit == tid \in 1..Len(Traces) /\ l = 1

\* the patch bytes inside what was handed over; lzma is a fact
Plain(e) == CASE e.comp = 0 -> e.bytes
              [] e.comp = 1 -> Expand(e.bytes)
              [] OTHER -> e.plain
Decodes(e) == e.comp # 2 \/ e.plainok
AllOk(w) == \A k \in DOMAIN w : w[k] = 0
Applied(e) == AllOk(e.w) /\ e.fin >= 0
Patch(e) ==
    IF e.bufok = FALSE THEN e.init # 0
    ELSE /\ e.init = 0
         \* what failed stays failed
         /\ ~AllOk(e.w) => e.fin < 0
         /\ e.gap = 0
         /\ IF e.fed # e.len \/ ~Decodes(e) THEN ~Applied(e)
            ELSE LET f == PRun(e.o, Plain(e)) IN
                 /\ Applied(e) = Complete(f)
                 /\ Applied(e) => e.fin = Len(f.out) /\ e.out = f.out
\* a diff made of two byte strings is a patch from one to the other
Diff(e) ==
    /\ e.init = 0 /\ e.gap = 0 /\ e.same
    /\ e.rc = e.n
    /\ Decodes(e)
    /\ LET f == PRun(e.o, Plain(e)) IN Complete(f) /\ f.out = e.new
Act(e) == CASE e.a = "patch" -> Patch(e)
            [] e.a = "diff" -> Diff(e)
            \* too large to look into: tokens only
            [] e.a = "round" -> /\ e.init = 0 /\ e.rc = e.n /\ e.gap = 0 /\ e.same /\ AllOk(e.w) /\ e.fin = e.newlen
                                /\ e.outtok = e.newtok /\ e.reftok = e.newtok
            [] OTHER -> FALSE
TraceStep == /\ l <= Len(T) /\ (Act(T[l])) = TRUE /\ l' = l + 1 /\ UNCHANGED tid
TraceDone == l > Len(T) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceStep \/ TraceDone]_tvars
=============================================================================
