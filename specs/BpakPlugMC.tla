----------------------------- MODULE BpakPlugMC -----------------------------
(* The design.  An operation computes hashes one after another and asks the key
   functions, some of it while a hash goes on; any of these calls, and reading in
   between, can be refused, upon which the hash that goes on is let go and the operation
   fails.  Forgetful (the hash is not let go), Twice (it is let go again at the
   end of the operation) and Deaf (a refusal goes unnoticed) are refuted by TLC. *)
EXTENDS BpakPlug, TLC, Json
CONSTANTS Forgetful, Twice, Deaf, Emit, MaxOps
VARIABLES op, at, cur, lives, ok, refused, hist
vars == <<op, at, cur, lives, ok, refused, hist>>
Hash == <<"I", "U", "U", "F", "X">>
Reading == <<"I", "U", "R", "U", "F", "X">>
\* what each kind of operation asks for; "K": a key function, "R": the outside
Asks == [partdigest |-> Reading, digests |-> Reading \o Hash, addfile |-> <<"R">> \o Reading, addkey |-> <<"K">> \o Reading,
         sign |-> Reading \o Hash \o <<"K", "K">>, verify |-> Hash \o <<"K", "K">> \o Reading, tree |-> Hash \o <<"R">> \o Reading \o Hash,
         key |-> <<"K">>]
Kinds == DOMAIN Asks
Idle == "idle"
Init == op = Idle /\ at = 0 /\ cur = <<>> /\ lives = {} /\ ok = TRUE /\ refused = 0 /\ hist = <<>>
Start(k) == /\ op = Idle /\ Len(hist) < MaxOps
            /\ op' = k /\ at' = 1 /\ cur' = <<>> /\ ok' = TRUE /\ refused' = 0
            /\ UNCHANGED <<lives, hist>>
Running == op # Idle /\ ok /\ at <= Len(Asks[op])
Call == IF Running THEN Asks[op][at] ELSE ""
Ending(c) == c = "X"
Do == /\ Running
      /\ IF Call \in {"K", "R"} THEN UNCHANGED <<cur, lives>>
         ELSE IF Ending(Call) THEN lives' = lives \cup {Append(cur, "X")} /\ cur' = <<>>
         ELSE cur' = Append(cur, Call) /\ UNCHANGED lives
      /\ at' = at + 1 /\ UNCHANGED <<op, ok, refused, hist>>
Refuse == /\ Running /\ refused = 0 /\ ~Ending(Call)
          /\ refused' = at
          /\ ok' = Deaf
          /\ at' = at + 1
          /\ IF Call \in {"K", "R"} THEN UNCHANGED cur ELSE cur' = Append(cur, Call \o "!")
          /\ UNCHANGED <<op, lives, hist>>
Void == cur = <<"I!">>
Finish == /\ op # Idle /\ ~Running
          \* what goes on is let go
          /\ lives' = (IF cur = <<>> THEN {IF Twice THEN Append(c, "X") ELSE c : c \in lives} ELSE lives \cup {IF Forgetful \/ Void THEN cur ELSE Append(cur, "X")})
          /\ hist' = Append(hist, [k |-> op, at |-> refused, ok |-> ok])
          /\ op' = Idle /\ cur' = <<>> /\ UNCHANGED <<at, ok, refused>>
MCSpec == Init /\ [][(\E k \in Kinds : Start(k)) \/ Do \/ Refuse \/ Finish]_vars
Tidy == op = Idle => \A c \in lives : Proper(c)
Told == \A k \in DOMAIN hist : (hist[k].at > 0) => ~hist[k].ok
EmitInv == (Emit /\ op = Idle /\ Len(hist) = MaxOps) => PrintT("@@" \o ToJson(hist))
=============================================================================
