----------------------------- MODULE TraceThreads -----------------------------
(***************************************************************************)
(* Trace validation of two threads in the real library: whose piece of     *)
(* work was done when, and the replies, given by their fingerprints.       *)
(* FRESH holds what a fresh process, asked that one question, replied.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACE)
RefFile == JsonDeserialize(IOEnv.FRESH)

VARIABLES asked, left, reply, order, tid, l, bad

T == Traces[tid]
Rep(q) == RefFile[q.doc][q.call]
M == INSTANCE Threads WITH Workers <- {1, 2}, Pieces <- Traces[1].pieces, Questions <- {}, Answer <- Rep

Init == tid \in 1..Len(Traces) /\ l = 1 /\ bad = {} /\ M!Ask(T.questions)
Event ==
  /\ l <= Len(T.events)
  /\ LET e == T.events[l] IN
     \/ e.ev = "work" /\ M!Work(e.w) /\ UNCHANGED bad
     \/ /\ e.ev = "reply" /\ M!Reply(e.w)
        /\ bad' = IF reply'[e.w] = <<e.reply>> THEN bad ELSE bad \cup {[at |-> l, call |-> asked[e.w].call, doc |-> asked[e.w].doc]}
  /\ l' = l + 1 /\ UNCHANGED tid
Judge ==
  /\ l = Len(T.events) + 1 /\ M!Finished
  /\ TLCSet(tid, [id |-> T.id, bad |-> bad])
  /\ l' = l + 1 /\ UNCHANGED <<asked, left, reply, order, tid, bad>>

Spec == Init /\ [][Event \/ Judge]_<<asked, left, reply, order, tid, l, bad>>
View == <<tid, l>>
WriteVerdicts == ndJsonSerialize(IOEnv.VERDICTS, [i \in 1..Len(Traces) |-> TLCGet(i)])
=============================================================================
