------------------------------ MODULE MC_Order ------------------------------
(***************************************************************************)
(* Extra blocks in any order, and again with, of each kind, only the last  *)
(* one, in a fixed order (C09): the reports are the same but for the size. *)
(* Blocks of no known kind keep their order.                               *)
(***************************************************************************)
EXTENDS Twice

Header == SubSeq(Docs[1].b, 1, 0) \o <<76>> \o AsSeq([i \in 1..75 |-> 0])
Sort(x) == <<1, 1, 9, 9, 2, 2, 3, 4>>[x]         \* of each block; 9: unknown
Size == IF Deep THEN 5 ELSE 4
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
FileOf(s) == Header \o Cat([i \in 1..Len(s) |-> Docs[s[i]].b]) \o <<0, 0, 0, 0>>
LastOf(s, k) == LET Z == {i \in 1..Len(s) : Sort(s[i]) = k} IN
                IF Z = {} THEN <<>> ELSE << s[CHOOSE i \in Z : \A j \in Z : j <= i] >>
Canonical(s) == LastOf(s, 4) \o LastOf(s, 3) \o LastOf(s, 2) \o LastOf(s, 1) \o SelectSeq(s, LAMBDA x : Sort(x) = 9)
Init == \E l \in 1..Size : \E s \in [1..l -> 1..Len(Docs)] :
          Begin([s |-> s], JobOf(FileOf(s), TRUE))
One == run = 1 /\ Next /\ UNCHANGED <<pair, run, note>>
Restart ==
  /\ run = 1 /\ phase = "done"
  /\ Again(JobOf(FileOf(Canonical(pair.s)), TRUE))
  /\ note' = Outcome
Two == run = 2 /\ Next /\ UNCHANGED <<pair, run, note>>
Spec == Init /\ [][One \/ Restart \/ Two \/ Rest]_tvars

NoSize(r) == {x \in r : x[1] # <<"size">>}
Unordered == AtEnd => NoSize(must) = NoSize(note.must) /\ warns = note.warns
View == <<pair, run, phase, pos, n, lim>>
=============================================================================
