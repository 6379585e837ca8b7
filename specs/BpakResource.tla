---------------------------- MODULE BpakResource ----------------------------
(* What is held between operations.  The program owns memory, files and
   mappings; the library takes some of it while it works.  Between operations it
   holds the file of every open package and the memory of every key handed out,
   and nothing else. *)
EXTENDS Integers, Sequences, FiniteSets
Nothing == [files |-> 0, maps |-> 0, live |-> 0]
Held(open, keys) == [files |-> Cardinality(open), maps |-> 0, live |-> Cardinality(keys)]
\* what is open and handed out after an operation
OpenAfter(open, e) == CASE e.k = "open" -> IF e.ok THEN open \cup {e.n} ELSE open
                        [] e.k = "close" -> open \ {e.n}
                        [] OTHER -> open
KeysAfter(keys, e) == CASE e.k = "kget" -> IF e.ok THEN keys \cup {e.n} ELSE keys
                        [] e.k = "kfree" -> keys \ {e.n}
                        [] OTHER -> keys
\* it went well, or it is said not to have
Honest(refused, ok, same, kept) == /\ (refused = 0 => same)
                                   /\ (ok => same)
                                   /\ (~ok => kept)
\* repeated work does not let what is taken grow
Steady(s) == Len(s) >= 3 /\ \E k \in 1..Len(s) - 1 : s[k + 1] <= s[k]
=============================================================================
