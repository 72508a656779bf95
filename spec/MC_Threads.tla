------------------------------ MODULE MC_Threads ------------------------------
(* All orders of two threads' pieces of work, for all pairs of questions,    *)
(* written out to be run in the real library.  Documents: 1 and 2 have the   *)
(* same bytes and different options, 3 has other bytes.                      *)
EXTENDS Threads, TLC, CSV, Json, IOUtils

MCWorkers == {1, 2}
MCQuestions == [doc : {1, 2, 3}, via : {"bytes"}, call : {"json", "json_all", "command", "size", "flags", "parts", "accessors"}]
MCAnswer(q) == <<q.doc, q.call>>
PiecesEach == IF IOEnv.TIER = "thorough" THEN 5 ELSE 3
Init == \E p, q \in MCQuestions : p.doc = 1 /\ Ask(<<p, q>>)
(* a reply is given as soon as the work is done *)
Owed == {w \in Workers : left[w] = 0 /\ reply[w] = <<>>}
Next == \/ \E w \in Owed : Reply(w)
        \/ Owed = {} /\ \E w \in Workers : Work(w)
Spec == Init /\ [][Next]_hvars /\ WF_hvars(Next)
Ends == <>Finished
WriteOut == Finished => CSVWrite("%1$s", <<ToJson([questions |-> asked, order |-> order])>>, IOEnv.OUT)
=============================================================================
