--------------------------- MODULE BpakValid ----------------------------
(***************************************************************************)
(* Which 4 kB blocks are a package header, and what opening a file does    *)
(* with them.  A candidate header is                                       *)
(*   magic: the first four bytes, in hex;                                  *)
(*   p: the 32 part slots, [u: used, s: size (wide), d: padding];          *)
(*   m: the 32 metadata slots, [u: used, s: size, o: offset];              *)
(*   hk: the hash kind.                                                    *)
(* Tables end at their first unused slot; what lies behind is not looked   *)
(* at.                                                                     *)
(***************************************************************************)
EXTENDS BpakHeader

MagicBytes == "32415042"          \* 0x42504132, little endian
PartAlign == 512

Used(slots) == LET F == {k \in 1..Len(slots) : ~slots[k].u} IN
               IF F = {} THEN Len(slots) ELSE First(F) - 1

PartSlotOk(q) == (q.s[Len(q.s)] + q.d) % PartAlign = 0
MetaSlotOk(q) == q.s + q.o <= MetaBytes

Valid(c) ==
    /\ c.magic = MagicBytes
    /\ \A k \in 1..Used(c.p) : PartSlotOk(c.p[k])
    /\ \A k \in 1..Used(c.m) : MetaSlotOk(c.m[k])
    /\ c.hk # 0

(* The header says nothing about hash kinds beyond the ones defined.  A
   header that names one of those may be refused or not. *)
HashKindKnown(c) == c.hk \in 0..3

AcceptsValid(c, rc0) == IF Valid(c) THEN (rc0 = 0 \/ ~HashKindKnown(c)) ELSE rc0 # 0

(* Opening a file of `size` bytes whose first bytes are the candidate c (or
   a prefix of it when size < HeaderSize).  `mode` is "r" or "r+" or "w+".
   Answer: result accepted, and what the file looks like afterwards
   ("same", or "fresh": exactly an empty package header). *)
OpenOk(f, mode, rc0, after) ==
    CASE mode = "w+" -> rc0 = 0 /\ after = "fresh"
      [] mode # "w+" /\ f.size >= HeaderSize -> AcceptsValid(f.c, rc0) /\ after = "same"
      [] mode = "r+" /\ f.size = 0 -> rc0 = 0 /\ after = "fresh"
      [] OTHER -> rc0 # 0 /\ after = "same"
=============================================================================
