----------------------------- MODULE TraceParse -----------------------------
(***************************************************************************)
(* Trace validation: every record of the trace file is one run of the real *)
(* parser: its input (bytes, code page, option) and what it reported.      *)
(* The machine of LnkParse is run on the input; at its end the report is   *)
(* compared with what the machine has established, and a verdict is left   *)
(* for every record:                                                       *)
(*   missing  pairs the specification demands and the report lacks         *)
(*   extra    pairs the specification has no reason for                    *)
(*   other    failed clauses: "exception", "timeout", "warning",           *)
(*            "spurious warning", "size", "command"                        *)
(*   taken    the actions the machine took (coverage)                      *)
(***************************************************************************)
EXTENDS LnkParse, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
CodePageFile == JsonDeserialize(IOEnv.CODEPAGES)
VARIABLES tid, taken

tvars == <<vars, tid, taken>>

T == Traces[tid]

TraceInit ==
  /\ tid \in 1..Len(Traces)
  /\ StartWith([b |-> Traces[tid].b, cp |-> Traces[tid].cp, atb |-> Traces[tid].atb])
  /\ taken = {}

Did(a, name) == a /\ taken' = taken \cup {name} /\ UNCHANGED tid

Step ==
  \/ Did(ReadHeader, "ReadHeader")
  \/ Did(SkipIdList, "SkipIdList") \/ Did(LostIdList, "LostIdList") \/ Did(OpenIdList, "OpenIdList")
  \/ Did(TakeItem, "TakeItem") \/ Did(SkipBadItem, "SkipBadItem") \/ Did(EndItems, "EndItems")
  \/ Did(CutItems, "CutItems") \/ Did(OddItem, "OddItem")
  \/ Did(NoLinkInfo, "NoLinkInfo") \/ Did(LostLinkInfo, "LostLinkInfo")
  \/ Did(IgnoreLinkInfo, "IgnoreLinkInfo") \/ Did(TakeLinkInfo, "TakeLinkInfo")
  \/ Did(SkipString, "SkipString") \/ Did(TakeString, "TakeString")
  \/ Did(LostString, "LostString") \/ Did(EndStrings, "EndStrings")
  \/ Did(TakeUnknownBlock, "TakeUnknownBlock") \/ Did(TakeBlock, "TakeBlock")
  \/ Did(SkipBadBlock, "SkipBadBlock") \/ Did(CutBlock, "CutBlock") \/ Did(EndExtra, "EndExtra")
  \/ Did(TerminalBlock, "TerminalBlock") \/ Did(AppendedData, "AppendedData")
  \/ Did(Report, "Report")

(***************************************************************************)
(* The comparison.  Instants may be off by a millisecond (the real code    *)
(* computes them in floating point).                                       *)
(***************************************************************************)
Abs(x) == IF x < 0 THEN -x ELSE x
CloseD(v, w) ==
  /\ Abs(v[2] - w[2]) <= 1
  /\ LET ds == (v[2] - w[2]) * 86400 + (v[3] - w[3]) IN
     /\ Abs(ds) <= 1
     /\ Abs(ds * 1000000 + (v[4] - w[4])) <= 1000
ObsSet(t) == {t.obs[i] : i \in 1..Len(t.obs)}
IsD(p) == p[2][1] = "d"

Verdict(t) ==
  LET obs == ObsSet(t)
      obsD == {p \in obs : IsD(p)}
      mustD == {p \in must : IsD(p)}
      missing == {p \in (must \ mustD) : p \notin obs}
                 \cup {p \in mustD : ~\E q \in obsD : q[1] = p[1] /\ CloseD(q[2], p[2])}
      allowed(p) == \/ p \in must
                    \/ p \in may
                    \/ \E f \in free : HasPrefix(p[1], f)
                    \/ IsD(p) /\ \E q \in mustD : q[1] = p[1] /\ CloseD(q[2], p[2])
      extra == {p \in obs : ~allowed(p)}
      command == IF cmd = NoCmd THEN <<>> ELSE Command(cmd.rel, cmd.args)
      szOk == \/ szlo = szhi /\ t.size = szlo
              \/ szlo < szhi /\ t.size >= szlo /\ t.size <= szhi
  IN  IF t.out # "ok"
        THEN [id |-> t.id, missing |-> {}, extra |-> {}, other |-> {t.out}, taken |-> taken]
      ELSE [id |-> t.id, missing |-> missing, extra |-> extra, taken |-> taken,
            other |-> (IF t.nw >= warns THEN {} ELSE {"warning"})
                      \cup (IF warns = 0 /\ free = {} /\ t.nw > 0 THEN {"spurious warning"} ELSE {})
                      \cup (IF szOk THEN {} ELSE {"size"})
                      \cup (IF t.cmd = command THEN {} ELSE {"command"})]

Judge ==
  /\ phase = "done"
  /\ TLCSet(tid, Verdict(T))
  /\ phase' = "judged"
  /\ UNCHANGED <<job, pos, lim, after, n, must, blk, may, free, warns, cmd, szlo, szhi, tid, taken>>

TraceNext == Step \/ Judge
TraceSpec == TraceInit /\ [][TraceNext]_tvars

(* the machine is deterministic: where it is determines the rest *)
TraceView == <<tid, phase, pos, n, lim>>

WriteVerdicts == ndJsonSerialize(IOEnv.VERDICTS, [i \in 1..Len(Traces) |-> TLCGet(i)])
=============================================================================
