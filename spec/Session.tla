------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* Using the library: objects are made from documents (bytes with a code   *)
(* page and the setting for appended data) and calls are made on them, in  *)
(* any order, on any of them; what a call returned may be altered by the   *)
(* caller at will.                                                         *)
(*                                                                         *)
(* A reply is a function of the document and the call.  Nothing else that  *)
(* happened is an argument of it, which is the whole point.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS Slots, Docs, Calls, Mutable, Vias, Fresh(_, _)

VARIABLES objs,     \* slot -> document of the object there, 0 if there is none
          hist      \* what happened, with the replies

svars == <<objs, hist>>

SInit == objs = [s \in Slots |-> 0] /\ hist = <<>>

New(s, d, via) ==
  /\ objs' = [objs EXCEPT ![s] = d]
  /\ hist' = Append(hist, [ev |-> "new", slot |-> s, doc |-> d, via |-> via])

Call(s, c, alter) ==
  /\ objs[s] # 0
  /\ alter => c \in Mutable
  /\ hist' = Append(hist, [ev |-> "call", slot |-> s, doc |-> objs[s], call |-> c, alter |-> alter,
                           reply |-> Fresh(objs[s], c)])
  /\ UNCHANGED objs

SNext == \/ \E s \in Slots, d \in Docs, v \in Vias : New(s, d, v)
         \/ \E s \in Slots, c \in Calls, a \in BOOLEAN : Call(s, c, a)

(* equal questions have equal answers, whatever happened in between *)
Repeatable ==
  \A i, j \in 1..Len(hist) :
    (hist[i].ev = "call" /\ hist[j].ev = "call" /\ hist[i].doc = hist[j].doc /\ hist[i].call = hist[j].call)
       => hist[i].reply = hist[j].reply
=============================================================================
