---------------------------- MODULE TraceSession ----------------------------
(***************************************************************************)
(* Trace validation of histories: every record is a history of Session as  *)
(* it went in the real library, the replies given by their fingerprints.   *)
(* FRESH holds what a fresh process, asked that one question, replied.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC, FiniteSets

Traces == ndJsonDeserialize(IOEnv.TRACE)
RefFile == JsonDeserialize(IOEnv.FRESH)

VARIABLES objs, hist, tid, l, bad

Rep(d, c) == RefFile[d][c]
M == INSTANCE Session WITH Slots <- 1..2, Docs <- 1..Len(RefFile), Calls <- DOMAIN RefFile[1],
                           Mutable <- DOMAIN RefFile[1], Vias <- {"bytes", "handle", "part"}, Fresh <- Rep

T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ bad = {} /\ M!SInit

Event ==
  /\ l <= Len(T.events)
  /\ LET e == T.events[l] IN
     \/ /\ e.ev = "new" /\ M!New(e.slot, e.doc, e.via)
        /\ bad' = IF e.ok THEN bad ELSE bad \cup {[at |-> l, call |-> "new", doc |-> e.doc]}
     \/ /\ e.ev = "call" /\ M!Call(e.slot, e.call, e.alter)
        /\ bad' = IF hist'[l].reply = e.reply THEN bad
                  ELSE bad \cup {[at |-> l, call |-> e.call, doc |-> objs[e.slot]]}
  /\ l' = l + 1 /\ UNCHANGED tid
Judge ==
  /\ l = Len(T.events) + 1
  /\ TLCSet(tid, [id |-> T.id, bad |-> bad])
  /\ l' = l + 1 /\ UNCHANGED <<objs, hist, tid, bad>>

Spec == Init /\ [][Event \/ Judge]_<<objs, hist, tid, l, bad>>
View == <<tid, l>>
WriteVerdicts == ndJsonSerialize(IOEnv.VERDICTS, [i \in 1..Len(Traces) |-> TLCGet(i)])
=============================================================================
