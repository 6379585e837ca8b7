------------------------------- MODULE BpakId -------------------------------
(* Identifiers and printed forms.  A 32-bit value is <<hi, lo>>, two numbers
   of 16 bits; text and bytes are sequences of numbers 0..255.              *)
EXTENDS Integers, Sequences, Bitwise, SequencesExt

\* ---------------------------------------------------------------- CRC-32
\* one bit: shift right; what falls out selects the polynomial EDB88320
CrcBit(c) ==
  LET s == <<c[1] \div 2, c[2] \div 2 + (c[1] % 2) * 32768>>
  IN IF c[2] % 2 = 1 THEN <<s[1] ^^ 60856, s[2] ^^ 33568>> ELSE s
RECURSIVE Bits(_, _)
Bits(c, n) == IF n = 0 THEN c ELSE Bits(CrcBit(c), n - 1)
CrcByte(c, b) == Bits(<<c[1], c[2] ^^ b>>, 8)
Crc(c, s) == FoldLeft(CrcByte, c, s)

Zero == <<0, 0>>
\* the id of a name: start value zero, no inversion at the end
Id(name) == Crc(Zero, name)

\* "-hash-tree"
Suffix == <<45, 104, 97, 115, 104, 45, 116, 114, 101, 101>>
TreeId(id) == Crc(id, Suffix)

\* the part a tree belongs to: the first one in use whose tree id it is
RECURSIVE DataOf(_, _)
DataOf(parts, t) == IF parts = <<>> THEN Zero
                    ELSE IF Head(parts) # Zero /\ TreeId(Head(parts)) = t THEN Head(parts)
                    ELSE DataOf(Tail(parts), t)

\* ---------------------------------------------------------------- names of well known ids
\* names as bytes; the ids that code relies on
PackageName == <<98,112,97,107,45,112,97,99,107,97,103,101>>
TransportName == <<98,112,97,107,45,116,114,97,110,115,112,111,114,116>>
SaltName == <<109,101,114,107,108,101,45,115,97,108,116>>
RootName == <<109,101,114,107,108,101,45,114,111,111,116,45,104,97,115,104>>
LoadName == <<112,98,45,108,111,97,100,45,97,100,100,114>>
VersionName == <<98,112,97,107,45,118,101,114,115,105,111,110>>
ProviderName == <<107,101,121,115,116,111,114,101,45,112,114,111,118,105,100,101,114,45,105,100>>
KeyIdName == <<98,112,97,107,45,107,101,121,45,105,100>>
KeyStoreName == <<98,112,97,107,45,107,101,121,45,115,116,111,114,101>>
Named == {PackageName, TransportName, SaltName, RootName, LoadName, VersionName, ProviderName}
PackageId == Id(PackageName)
TransportId == Id(TransportName)
SaltId == Id(SaltName)
RootId == Id(RootName)
LoadId == Id(LoadName)
VersionId == Id(VersionName)
ProviderId == Id(ProviderName)
KeyIdId == Id(KeyIdName)
KeyStoreId == Id(KeyStoreName)
NameOf(id) == LET S == {n \in Named : Id(n) = id} IN IF S = {} THEN <<>> ELSE CHOOSE n \in S : TRUE

\* ---------------------------------------------------------------- text
Digit(v, upper) == IF v < 10 THEN 48 + v ELSE (IF upper THEN 55 ELSE 87) + v
HexByte(b, upper) == <<Digit(b \div 16, upper), Digit(b % 16, upper)>>
Hex(s, upper) == FoldLeft(LAMBDA a, b : a \o HexByte(b, upper), <<>>, s)
\* without zeros in front, at least n digits
RECURSIVE Strip(_, _)
Strip(t, n) == IF Len(t) > n /\ Head(t) = 48 THEN Strip(Tail(t), n) ELSE t
\* little endian numbers
Num(s, n, upper) == Strip(Hex(Reverse(s), upper), n)
Uuid(s) == Hex(SubSeq(s, 1, 4), FALSE) \o <<45>> \o Hex(SubSeq(s, 5, 6), FALSE) \o <<45>> \o Hex(SubSeq(s, 7, 8), FALSE)
           \o <<45>> \o Hex(SubSeq(s, 9, 10), FALSE) \o <<45>> \o Hex(SubSeq(s, 11, 16), FALSE)
RECURSIVE CString(_)
CString(s) == IF s = <<>> \/ Head(s) = 0 THEN <<>> ELSE <<Head(s)>> \o CString(Tail(s))

Encode == <<69,110,99,111,100,101,58,32>>          \* "Encode: "
Decode == <<44,32,68,101,99,111,100,101,58,32>>    \* ", Decode: "
Entry == <<69,110,116,114,121,58,32,48,120>>       \* "Entry: 0x"

\* bytes a known entry needs
Needs(id) == IF id \in {KeyIdId, KeyStoreId, ProviderId} THEN 4
             ELSE IF id = PackageId THEN 16
             ELSE IF id \in {TransportId, LoadId} THEN 8
             ELSE IF id \in {SaltId, RootId} THEN 32 ELSE 0
MetaText(id, s) ==
  IF id \in {KeyIdId, KeyStoreId} THEN Num(SubSeq(s, 1, 4), 1, FALSE)
  ELSE IF id = ProviderId THEN <<48, 120>> \o Num(SubSeq(s, 1, 4), 1, FALSE)
  ELSE IF id = PackageId THEN Uuid(s)
  ELSE IF id = TransportId THEN Encode \o Num(SubSeq(s, 1, 4), 8, FALSE) \o Decode \o Num(SubSeq(s, 5, 8), 8, FALSE)
  ELSE IF id \in {SaltId, RootId} THEN Hex(SubSeq(s, 1, 32), FALSE)
  ELSE IF id = LoadId THEN Entry \o Num(SubSeq(s, 1, 8), 8, TRUE)
  ELSE IF id = VersionId THEN CString(s)
  ELSE <<>>

\* r: [ok, text] for a buffer of n bytes; the text is what is there in front of
\* a zero byte that lies inside the buffer
Fits(full, n) == Len(full) < n
Whole(full, n, r) == IF Fits(full, n) THEN r.ok /\ r.text = full ELSE ~r.ok
\* a form that does not fit is refused or cut
Printed(full, n, r) == IF Fits(full, n) THEN r.ok /\ r.text = full
                       ELSE ~r.ok \/ n = 0 \/ r.text = SubSeq(full, 1, n - 1)
HexOK(s, n, r) == Whole(Hex(s, FALSE), n, r)
UuidOK(s, n, r) == Whole(Uuid(s), n, r)
\* an entry that is too short for its form has none
MetaOK(id, s, n, r) == IF Len(s) < Needs(id) THEN ~r.ok \/ n = 0 \/ r.text = <<>>
                       ELSE Printed(MetaText(id, s), n, r)
=============================================================================
