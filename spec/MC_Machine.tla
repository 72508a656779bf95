------------------------------ MODULE MC_Machine ------------------------------
(***************************************************************************)
(* The reading of every short end of a file: in every state until there is *)
(* a report exactly one action is possible, every action gets on, and the  *)
(* report says nothing twice (C13).                                        *)
(***************************************************************************)
EXTENDS LnkParse, Json, IOUtils

CodePageFile == JsonDeserialize(IOEnv.CODEPAGES)
Docs == ndJsonDeserialize(IOEnv.DOCS)
VARIABLE doc
Init == doc \in 1..Len(Docs) /\ \E a \in BOOLEAN : StartWith([b |-> Docs[doc].b, cp |-> Docs[doc].cp, atb |-> a])
Go == Next /\ UNCHANGED doc
Done == phase = "done" /\ UNCHANGED <<vars, doc>>
Spec == Init /\ [][Go \/ Done]_<<vars, doc>>

Can(a) == IF a THEN 1 ELSE 0
Ways == Can(ENABLED ReadHeader) + Can(ENABLED SkipIdList) + Can(ENABLED LostIdList) + Can(ENABLED OpenIdList)
  + Can(ENABLED TakeItem) + Can(ENABLED SkipBadItem) + Can(ENABLED EndItems) + Can(ENABLED CutItems) + Can(ENABLED OddItem)
  + Can(ENABLED NoLinkInfo) + Can(ENABLED LostLinkInfo) + Can(ENABLED IgnoreLinkInfo) + Can(ENABLED TakeLinkInfo)
  + Can(ENABLED SkipString) + Can(ENABLED TakeString) + Can(ENABLED LostString) + Can(ENABLED EndStrings)
  + Can(ENABLED TakeUnknownBlock) + Can(ENABLED TakeBlock) + Can(ENABLED SkipBadBlock) + Can(ENABLED CutBlock)
  + Can(ENABLED EndExtra) + Can(ENABLED TerminalBlock) + Can(ENABLED AppendedData) + Can(ENABLED Report)
OneWay == phase # "done" => Ways = 1
GetsOn == [][Rank(phase') > Rank(phase) \/ (phase' = phase /\ (pos' > pos \/ n' > n)) \/ phase = "done"]_<<vars, doc>>
View == <<doc, job.atb, phase, pos, n, lim>>
=============================================================================
