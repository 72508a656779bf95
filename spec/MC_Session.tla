----------------------------- MODULE MC_Session -----------------------------
(***************************************************************************)
(* All short histories, and (by simulation) long ones, written out to be   *)
(* replayed into the real library.  Every history begins with an object on *)
(* each slot: one of document 1, one of any document.                      *)
(***************************************************************************)
EXTENDS Session, TLC, CSV, Json, IOUtils, SequencesExt

Depth == CHOOSE n \in 1..60 : ToString(n) = IOEnv.DEPTH
MCSlots == {1, 2}
MCDocs == {1, 2, 3}
MCMutable == {"json", "json_all", "parts"}
MCCalls == {"json", "json_all", "print_json", "print_json_all", "text", "text_all", "target", "target_json", "command", "size", "flags", "parts", "accessors"}
MCVias == {"bytes", "handle", "part"}
MCFresh(d, c) == <<d, c>>

Start ==
  \E d \in MCDocs, v \in MCVias :
    /\ objs = [s \in MCSlots |-> IF s = 1 THEN 1 ELSE d]
    /\ hist = << [ev |-> "new", slot |-> 1, doc |-> 1, via |-> "bytes"], [ev |-> "new", slot |-> 2, doc |-> d, via |-> v] >>

Bounded == Len(hist) < Depth + 2
Long == \E s \in Slots, c \in Calls, a \in BOOLEAN : Bounded /\ Call(s, c, a)
(* long histories also make new objects now and then *)
Mixed == \/ Long
         \/ Bounded /\ Len(hist) % 4 = 0 /\ \E s \in Slots, d \in Docs, v \in Vias : New(s, d, v)

WriteOut == Len(hist) = Depth + 2 => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)

ShortSpec == Start /\ [][Long]_svars
LongSpec == Start /\ [][Mixed]_svars
=============================================================================
