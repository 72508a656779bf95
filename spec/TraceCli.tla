------------------------------ MODULE TraceCli ------------------------------
(***************************************************************************)
(* Trace validation of command lines: every record is one run of the tool: *)
(* its words, its exit code and the fingerprint of its standard output.    *)
(* FRESH[doc][code page][output] is the fingerprint of what the library    *)
(* prints; NOTHING is that of no output.                                   *)
(***************************************************************************)
EXTENDS Cli, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
Fresh == JsonDeserialize(IOEnv.FRESH)
VARIABLES tid, phase
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ phase = "run"
Run ==
  /\ phase = "run" /\ phase' = "judged" /\ UNCHANGED tid
  /\ LET e == Effect(T.words)
         okExit == (T.exit = 0) <=> (e.exit = "zero")
         okOut == IF e.doc = 0 THEN T.printed = "NOTHING" ELSE T.printed = Fresh[e.doc][e.cp][e.out]
     IN  TLCSet(tid, [id |-> T.id, effect |-> e,
                      bad |-> (IF okExit THEN {} ELSE {"exit code"}) \cup (IF okOut THEN {} ELSE {"output"})])
Spec == Init /\ [][Run]_<<tid, phase>>
WriteVerdicts == ndJsonSerialize(IOEnv.VERDICTS, [i \in 1..Len(Traces) |-> TLCGet(i)])
=============================================================================
