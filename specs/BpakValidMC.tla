-------------------------- MODULE BpakValidMC ---------------------------
(* Enumerates candidate headers: a well-formed base and up to two faults
   placed anywhere in it.  Every candidate is printed for replay. *)
EXTENDS BpakValid, TLC, Json
CONSTANTS MaxFaults, Slots, NParts, NMetas

VARIABLES np, nm, faults
vars == <<np, nm, faults, h, saved, rc>>

PartVals == {<<0, 0, 1, 0>>, <<0, 0, 511, 0>>, <<0, 0, 512, 1>>, <<0, 0, 513, 511>>, <<0, 0, 1, 511>>,
             <<0, 0, 256, 256>>, <<0, 0, 0, 0>>, <<0, 0, 256, 0>>, <<0, 0, 128, 384>>, <<0, 0, 64, 64>>,
             <<0, 1, 0, 0>>, <<0, 256, 512, 0>>, <<0, 256, 511, 0>>, <<65535, 16777215, 16777215, 1>>,
             <<65535, 16777215, 16776704, 0>>, <<0, 0, 1, 65535>>, <<0, 0, 0, 65535>>, <<0, 0, 0, 65024>>,
             <<1, 0, 4, 508>>, <<1, 0, 4, 500>>}
MetaVals == {<<1920, 0>>, <<1921, 0>>, <<0, 1920>>, <<0, 1921>>, <<1, 1920>>, <<1912, 8>>, <<1913, 8>>, <<1919, 1>>,
             <<1920, 1>>, <<65535, 65535>>, <<65535, 1>>, <<1, 65535>>, <<0, 65535>>, <<65535, 0>>, <<32768, 32768>>,
             <<65000, 600>>, <<600, 65000>>, <<1000, 1000>>, <<960, 960>>, <<2047, 1>>}
Magics == {"33415042", "32405042", "32415142", "32415043", "00000000", "ffffffff", "42504132", "b2415042"}
Hks == {0, 1, 2, 3}

Fault == [k : {"p"}, at : Slots, v : PartVals] \cup [k : {"m"}, at : Slots, v : MetaVals]
         \cup [k : {"magic"}, v : Magics] \cup [k : {"hk"}, v : Hks]
Order(f) == CASE f.k = "p" -> f.at [] f.k = "m" -> 100 + f.at [] f.k = "magic" -> 200 [] OTHER -> 300

Base0 == [magic |-> MagicBytes, hk |-> 1,
          p |-> [k \in 1..32 |-> [u |-> k <= np, s |-> <<0, 0, 512 * (k % 3)>>, d |-> 0]],
          m |-> [k \in 1..32 |-> [u |-> k <= nm, s |-> 16, o |-> 16 * (k - 1)]]]
Put(c, f) ==
    CASE f.k = "p" -> [c EXCEPT !.p[f.at].s = <<f.v[1], f.v[2], f.v[3]>>, !.p[f.at].d = f.v[4]]
      [] f.k = "m" -> [c EXCEPT !.m[f.at].s = f.v[1], !.m[f.at].o = f.v[2]]
      [] f.k = "magic" -> [c EXCEPT !.magic = f.v]
      [] OTHER -> [c EXCEPT !.hk = f.v]
Cand == FoldLeft(Put, Base0, faults)

VInit == np \in NParts /\ nm \in NMetas /\ faults = <<>> /\ HInit
AddFault(f) == /\ Len(faults) < MaxFaults
               /\ IF faults = <<>> THEN TRUE ELSE Order(f) > Order(faults[Len(faults)])
               /\ faults' = Append(faults, f)
               /\ UNCHANGED <<np, nm, h, saved, rc>>
VNext == \E f \in Fault : AddFault(f)
VSpec == VInit /\ [][VNext]_vars

(* a fault behind the end of its table changes nothing; one fault of a bad
   value within the table always invalidates *)
BehindEndIrrelevant ==
    (\A j \in 1..Len(faults) : LET f == faults[j] IN
        (f.k = "p" /\ f.at > np) \/ (f.k = "m" /\ f.at > nm)) => Valid(Cand)
AnyBadSlotInvalid ==
    (\E j \in 1..Len(faults) : LET f == faults[j] IN
        \/ f.k = "p" /\ f.at <= np /\ (f.v[3] + f.v[4]) % 512 # 0
        \/ f.k = "m" /\ f.at <= nm /\ f.v[1] + f.v[2] > 1920
        \/ f.k = "magic" \/ (f.k = "hk" /\ f.v = 0)) => ~Valid(Cand)
EmitInv == PrintT("@@" \o ToJson([np |-> np, nm |-> nm, f |-> faults]))
=============================================================================
