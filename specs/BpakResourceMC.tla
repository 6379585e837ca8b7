--------------------------- MODULE BpakResourceMC ---------------------------
(* The design.  An operation takes things one after another; every taking can
   be refused, upon which what was taken goes back and the operation fails.  What
   an operation hands over is kept.  Forgetful (something is not given back after a
   refusal) and Blind (a refusal goes unnoticed) are refuted by TLC. *)
EXTENDS BpakResource, TLC, Json
CONSTANTS Slots, MaxHist, Forgetful, Blind, Emit
VARIABLES open, keys, held, op, hist
vars == <<open, keys, held, op, hist>>
\* what each kind of operation takes; "!" is the outside refusing for good
Takes == [open |-> <<"files">>, openbad |-> <<"files", "!">>, kget |-> <<"files", "live">>, kgetbad |-> <<"files", "live", "!">>,
          edit |-> <<"files", "live">>, editbad |-> <<"files", "live", "!">>, code |-> <<"maps", "maps", "live", "live">>,
          codebad |-> <<"maps", "maps", "live", "!">>, look |-> <<>>, work |-> <<"live", "live">>, close |-> <<>>, kfree |-> <<>>]
Kinds == DOMAIN Takes
Does(k) == CASE k \in {"open", "openbad"} -> "open" [] k \in {"kget", "kgetbad"} -> "kget" [] OTHER -> k
Idle == [k |-> "idle"]
Init == open = {} /\ keys = {} /\ held = Nothing /\ op = Idle /\ hist = <<>>
Needs(k) == CASE k \in {"edit", "editbad", "look", "code", "codebad"} -> open # {} [] OTHER -> TRUE
Start(k, n) == /\ op = Idle /\ Len(hist) < MaxHist /\ Needs(k)
               /\ CASE Does(k) = "open" -> n \notin open [] k = "close" -> n \in open
                    [] Does(k) = "kget" -> n \notin keys [] k = "kfree" -> n \in keys
                    [] OTHER -> n = 1
               /\ op' = [k |-> k, n |-> n, at |-> 1, taken |-> <<>>, ok |-> TRUE, refused |-> 0]
               /\ UNCHANGED <<open, keys, held, hist>>
Running == op # Idle /\ op.ok /\ op.at <= Len(Takes[op.k])
Take == /\ Running /\ Takes[op.k][op.at] # "!"
        /\ held' = [held EXCEPT ![Takes[op.k][op.at]] = @ + 1]
        /\ op' = [op EXCEPT !.at = @ + 1, !.taken = Append(@, Takes[op.k][op.at])]
        /\ UNCHANGED <<open, keys, hist>>
\* only memory is refused by the program's allocator, and once
Refuse == /\ Running /\ Takes[op.k][op.at] \in {"live", "!"} /\ op.refused = 0
          /\ op' = [op EXCEPT !.ok = Blind, !.at = @ + 1, !.refused = IF Takes[op.k][op.at] = "!" THEN 0 ELSE Cardinality({j \in 1..op.at : Takes[op.k][j] = "live"})]
          /\ UNCHANGED <<open, keys, held, hist>>
Hands == CASE op.ok /\ op.k = "open" -> <<"files">> [] op.ok /\ op.k = "kget" -> <<"live">> [] OTHER -> <<>>
Back == CASE op.k = "close" -> <<"files">> [] op.k = "kfree" -> <<"live">> [] OTHER -> <<>>
Sum(s, r) == Cardinality({j \in DOMAIN s : s[j] = r})
Given == IF Forgetful /\ ~op.ok /\ op.taken # <<>> THEN Tail(op.taken) ELSE op.taken
Finish == /\ op # Idle /\ ~Running
          /\ held' = [r \in {"files", "maps", "live"} |-> held[r] - Sum(Given, r) + Sum(Hands, r) - Sum(Back, r)]
          /\ LET e == [k |-> Does(op.k), n |-> op.n, ok |-> op.ok] IN open' = OpenAfter(open, e) /\ keys' = KeysAfter(keys, e)
          /\ hist' = Append(hist, [k |-> op.k, n |-> op.n, ok |-> op.ok, at |-> op.refused])
          /\ op' = Idle
MCSpec == Init /\ [][(\E k \in Kinds, n \in Slots : Start(k, n)) \/ Take \/ Refuse \/ Finish]_vars
Tidy == op = Idle => held = Held(open, keys)
Told == \A j \in DOMAIN hist : hist[j].at > 0 => ~hist[j].ok
Emitting == Emit /\ op = Idle /\ Len(hist) = MaxHist
EmitInv == Emitting => PrintT("@@" \o ToJson(hist))
=============================================================================
