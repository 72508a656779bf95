------------------------------ MODULE MC_Chain ------------------------------
(***************************************************************************)
(* A link by itself, and the same link with another one behind it (C15):   *)
(* with appended data disallowed nothing changes, and the reported size is *)
(* where the other one begins.                                             *)
(***************************************************************************)
EXTENDS Twice

D == Len(Docs)
Init == \E a \in 1..D, b \in 1..D :
          /\ Deep \/ ((a * 3 + b) % 5) = 0
          /\ Begin([a |-> a, b |-> b], JobOf(Docs[a].b, FALSE))
One == run = 1 /\ Next /\ UNCHANGED <<pair, run, note>>
Restart ==
  /\ run = 1 /\ phase = "done"
  /\ Again(JobOf(Docs[pair.a].b \o Docs[pair.b].b, FALSE))
  /\ note' = Outcome
Two == run = 2 /\ Next /\ UNCHANGED <<pair, run, note>>
Spec == Init /\ [][One \/ Restart \/ Two \/ Rest]_tvars

Alone == AtEnd => Outcome = note
SizeLeads == AtEnd => szlo = szhi /\ szlo <= Len(Docs[pair.a].b)
(* one that ends with its terminal is all that it occupies *)
Exact == (AtEnd /\ ~(\E x \in note.must : x[1] = <<"extra", "TERMINAL_BLOCK", "size">>) /\ pair.a # 3) => szlo = Len(Docs[pair.a].b)
View == <<pair, run, phase, pos, n, lim, szlo>>
=============================================================================
