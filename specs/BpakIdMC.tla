------------------------------ MODULE BpakIdMC ------------------------------
(* Design checks, and cases to try. *)
EXTENDS BpakId, TLC, Json, FiniteSets
CONSTANTS Bytes,     \* of short names
          MaxName,
          MaxParts,
          Emit
VARIABLES name, parts, q
vars == <<name, parts, q>>
Names == UNION {[1..k -> Bytes] : k \in 0..MaxName}
\* a part table: ids, zero where the slot is not in use
PoolOf == {Id(<<97>>), Id(<<98>>), TreeId(Id(<<97>>)), Zero}
MCInit == /\ name \in Names
          /\ parts \in UNION {[1..k -> PoolOf] : k \in 0..MaxParts}
          /\ q \in PoolOf \cup {TreeId(Id(<<98>>)), TreeId(TreeId(Id(<<97>>)))}
MCNext == UNCHANGED vars
MCSpec == MCInit /\ [][MCNext]_vars
\* feeding a name in two pieces is the same
Split == \A k \in 0..Len(name) : Crc(Crc(Zero, SubSeq(name, 1, k)), SubSeq(name, k + 1, Len(name))) = Id(name)
\* names: the id of the tree is the id of the longer name
TreeName == TreeId(Id(name)) = Id(name \o Suffix)
\* different short names never share an id, so neither do their trees
Apart == \A m \in Names : m # name /\ Len(m) = Len(name) => Id(m) # Id(name) /\ TreeId(Id(m)) # TreeId(Id(name))
BackAgain == /\ \A k \in 1..Len(parts) : parts[k] # Zero => DataOf(parts, TreeId(parts[k])) = parts[k]
           /\ DataOf(parts, q) # Zero => TreeId(DataOf(parts, q)) = q
\* the table of well known ids
Known == /\ PackageId = <<64303, 7999>> /\ TransportId = <<11588, 48123>> /\ SaltId = <<31899, 12179>> /\ RootId = <<59023, 51646>>
         /\ LoadId = <<53734, 19019>> /\ VersionId = <<39515, 43881>> /\ ProviderId = <<64310, 32154>>
         /\ KeyIdId = <<32161, 37785>> /\ KeyStoreId = <<4204, 5031>>
Sound == Split /\ TreeName /\ Apart /\ BackAgain /\ Known
EmitInv == Emit => PrintT("@@" \o ToJson([name |-> name, parts |-> parts, q |-> q]))
=============================================================================
