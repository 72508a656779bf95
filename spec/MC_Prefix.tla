------------------------------ MODULE MC_Prefix ------------------------------
(***************************************************************************)
(* A file, read up to the first structure that a cut divides, and then its *)
(* bytes before the cut (C16).  All that was established stays in the      *)
(* report of the cut file; what is added to it belongs to the structure    *)
(* divided or says that something is not there; and a section that is lost *)
(* is warned about.                                                        *)
(***************************************************************************)
EXTENDS Twice

Step == IF Deep THEN 1 ELSE 9
Init == \E d \in 1..Len(Docs) : \E c \in {x \in HEADER..Len(Docs[d].b) : ((x + d) % Step) = 0} :
          Begin([doc |-> d, cut |-> c], JobOf(Docs[d].b, TRUE))

Before ==
  /\ run = 1 /\ note = <<>> /\ Next
  /\ note' = IF pos' > pair.cut \/ phase' = "report" THEN <<[was |-> SoFar, owner |-> Owner, warns |-> warns]>> ELSE <<>>
  /\ UNCHANGED <<pair, run>>
Restart ==
  /\ run = 1 /\ note # <<>>
  /\ Again(JobOf(SubSeq(job.b, 1, pair.cut), TRUE)) /\ UNCHANGED note
Second == run = 2 /\ Next /\ UNCHANGED <<pair, run, note>>
Spec == Init /\ [][Before \/ Restart \/ Second \/ Rest]_tvars

Kept == AtEnd =>
  LET was == note[1].was
      owner == note[1].owner
  IN  /\ was \subseteq must
      /\ \A x \in must \ was :
           \/ HasPrefix(x[1], owner) \/ x[1] = <<"size">> \/ x \in NothingThere
           \/ (owner = <<"size">> /\ HasPrefix(x[1], <<"extra", "TERMINAL_BLOCK">>))
      /\ warns >= note[1].warns
(* no section gets lost without a warning *)
Warned == AtEnd =>
  LET there(p) == p \in Paths(must)
      lost == \/ LinkFlag(B, BHasIdList) /\ ~there(<<"target", "size">>)
              \/ LinkFlag(B, BHasLinkInfo) /\ ~LinkFlag(B, BForceNoInfo) /\ ~there(<<"link_info", "link_info_size">>)
              \/ \E k \in 1..5 : LinkFlag(B, StringFlag[k]) /\ ~there(<<"data", StringKey[k]>>)
  IN  lost => warns > 0
(* cut behind its end, it is the file itself *)
Whole == (AtEnd /\ pair.cut = Len(Docs[pair.doc].b)) => \A x \in note[1].was : x \in must
View == <<pair, run, phase, pos, n, lim, note = <<>>>>
=============================================================================
