------------------------------ MODULE MC_Local ------------------------------
(***************************************************************************)
(* A file, and the same file with one byte changed, inside of a structure  *)
(* but not in its size or signature (C04, C14): only what is reported for  *)
(* that structure may change.  All else stays, an item left out making the *)
(* next ones move up; the size of the link stays; and what is no longer    *)
(* reported is warned about.                                               *)
(***************************************************************************)
EXTENDS Twice

Step == IF Deep THEN 3 ELSE 29
Pokes == {0, 1, 128, 255}
Init == \E d \in 1..Len(Docs) : \E v \in Pokes : \E o \in {x \in 0..(Len(Docs[d].b) - 1) : ((x + d + v) % Step) = 0} :
          /\ Docs[d].b[o + 1] # v
          /\ Begin([doc |-> d, at |-> o, val |-> v], JobOf(Docs[d].b, TRUE))

(* bytes of the structure at pos that say where it ends or what it is *)
Structural ==
  CASE phase = "header" -> {0, 1, 2, 3, 20, 21, 22, 23}
    [] phase = "idlist" -> {pos, pos + 1}
    [] phase = "items" -> {pos, pos + 1}
    [] phase = "linkinfo" -> pos..(pos + 3)
    [] phase = "strings" -> {pos, pos + 1}
    [] OTHER -> pos..(pos + 7)
(* the step that reads the byte changed: whose it is *)
Reads == run = 1 /\ pos <= pair.at /\ pair.at < pos' /\ pair.at \notin Structural
Finished1 == run = 1 /\ phase = "done"

One ==
  /\ run = 1 /\ Next
  /\ note' = IF Reads THEN [owner |-> Owner, k |-> n] ELSE note
  /\ UNCHANGED <<pair, run>>
Restart ==
  /\ Finished1 /\ note # <<>>
  /\ Again(JobOf([job.b EXCEPT ![pair.at + 1] = pair.val], TRUE))
  /\ note' = [owner |-> note.owner, k |-> note.k, out |-> Outcome]
Structure ==                             \* not a byte of this kind
  Finished1 /\ note = <<>> /\ UNCHANGED tvars
Two == run = 2 /\ Next /\ UNCHANGED <<pair, run, note>>
Spec == Init /\ [][One \/ Restart \/ Structure \/ Two \/ Rest]_tvars

IndexOf == [s \in {Idx(i) : i \in 0..99} |-> CHOOSE i \in 0..99 : Idx(i) = s]
IsItem == HasPrefix(note.owner, ITEMS) /\ Len(note.owner) = 3
GoneItems(r) == Cardinality({x[1][3] : x \in {y \in r : HasPrefix(y[1], ITEMS) /\ Len(y[1]) > 3}})
(* the first report as it is without the k-th item *)
MovedUp(r, k) ==
  {IF HasPrefix(x[1], ITEMS) /\ Len(x[1]) > 3
     THEN IF IndexOf[x[1][3]] > k THEN <<[x[1] EXCEPT ![3] = Idx(IndexOf[x[1][3]] - 1)], x[2]>> ELSE x
     ELSE x : x \in {y \in r : ~HasPrefix(y[1], note.owner)}}
Apart(r) == {x \in r : ~HasPrefix(x[1], note.owner)} \ NothingThere
Owned(r) == Below(r, note.owner)

Local == AtEnd =>
  LET r1 == note.out.must
      left == IsItem /\ GoneItems(must) < GoneItems(r1)
  IN  \/ ~left /\ Apart(must) = Apart(r1)
      \/ left /\ must \ NothingThere = MovedUp(r1, note.k) \ NothingThere
SizeStays == AtEnd => szlo = note.out.szlo /\ szhi = note.out.szhi
CommandStays == AtEnd => (cmd = note.out.cmd \/ note.owner \in {<<"data", "relative_path">>, <<"data", "command_line_arguments">>})
LossWarned == AtEnd =>
  LET gone == \/ IsItem /\ GoneItems(must) < GoneItems(note.out.must)
              \/ ~IsItem /\ Owned(must) = {} /\ Owned(note.out.must) # {}
  IN  gone => warns > note.out.warns
View == <<pair, run, phase, pos, n, lim>>
=============================================================================
