------------------------ MODULE BpakTransportTrace ------------------------
(* Recorded codings and decodings of real packages. *)
EXTENDS BpakTransport, Json
VARIABLES tid, l
tvars == <<tid, l>>
Traces == JsonDeserialize("traces.json")
T == Traces[tid]
TraceInit == tid \in 1..Len(Traces) /\ l = 1
TrHash(F, b) == 0

RECURSIVE SumN(_)
SumN(s) == IF s = <<>> THEN 0 ELSE Head(s).n + SumN(Tail(s))
Enc(e) == /\ e.kept /\ e.held
          /\ e.ok = EncodeOk(e.parts, e.uuid, e.org)
          /\ e.ok => /\ Len(e.out) = Len(e.parts)
                     /\ \A k \in DOMAIN e.parts : Encoded(e.parts[k], e.out[k])
                     /\ e.outhdr = e.hdr
                     /\ e.len = 4096 + SumOf(e.out)
                     \* the sizes the coded package announces
                     /\ e.size = e.len /\ e.inst = SumN(e.parts)
Dec(e) == /\ e.kept /\ e.held
          /\ e.ok = DecodeOk(e.parts, e.uuid, e.org)
          /\ e.ok => /\ Len(e.out) = Len(e.parts)
                     /\ \A k \in DOMAIN e.parts : Decoded(e.parts[k], e.out[k])
                     /\ e.outhdr = e.hdr
                     /\ e.len = 4096 + SumN(e.parts)
                     /\ e.size = e.len /\ e.inst = SumN(e.parts)
\* there and back with the same origin
Round(e) == e.ok /\ e.outfile = e.infile /\ e.verified = e.verifiedbefore
Act(e) == CASE e.a = "enc" -> Enc(e)
            [] e.a = "dec" -> Dec(e)
            [] e.a = "round" -> Round(e)
            [] OTHER -> FALSE
TraceStep == /\ l <= Len(T) /\ (Act(T[l])) = TRUE /\ l' = l + 1 /\ UNCHANGED tid
TraceDone == l > Len(T) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceStep \/ TraceDone]_tvars
=============================================================================
