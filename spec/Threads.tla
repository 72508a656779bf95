------------------------------- MODULE Threads -------------------------------
(***************************************************************************)
(* Using the library from two threads: each makes an object of its own     *)
(* from a document and asks it something.  Making and asking take Pieces   *)
(* pieces of work; between any two of them the other thread may run.  What *)
(* is replied is a function of the thread's own document and question, as  *)
(* in Session.                                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS Workers, Pieces, Questions, Answer(_)    \* a question: [doc, via, call]

VARIABLES asked,    \* worker -> its question
          left,     \* worker -> pieces of work left
          reply,    \* worker -> the reply, <<>> before there is one
          order     \* whose piece was done when

hvars == <<asked, left, reply, order>>

Ask(q) == /\ asked = q /\ left = [w \in Workers |-> Pieces] /\ reply = [w \in Workers |-> <<>>] /\ order = <<>>
Work(w) ==
  /\ left[w] > 0
  /\ left' = [left EXCEPT ![w] = @ - 1]
  /\ order' = Append(order, w)
  /\ UNCHANGED <<asked, reply>>
Reply(w) ==
  /\ left[w] = 0 /\ reply[w] = <<>>
  /\ reply' = [reply EXCEPT ![w] = <<Answer(asked[w])>>]
  /\ UNCHANGED <<asked, left, order>>
HNext == \E w \in Workers : Work(w) \/ Reply(w)

Finished == \A w \in Workers : reply[w] # <<>>
(* whoever is asked alone replies the same *)
Independent == \A w \in Workers : reply[w] \in {<<>>, <<Answer(asked[w])>>}
=============================================================================
