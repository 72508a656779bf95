----------------------------- MODULE TraceViews -----------------------------
(***************************************************************************)
(* Trace validation of the outputs: every record is one run of the real    *)
(* code, with its full report, its command, and what each other output of  *)
(* the same object was.  One step per output; a verdict for every record.  *)
(***************************************************************************)
EXTENDS Views, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, report, todo, bad
vvars == <<tid, report, todo, bad>>

Outputs == <<"dflt", "json_all", "json", "yaml_all", "yaml", "target", "target_json", "api">>
T == Traces[tid]

(* readable names of all keys that occur, once and for all *)
AllKeys == UNION {UNION {ToSet(t.obs[i][1]) : i \in 1..Len(t.obs)} : t \in ToSet(Traces)}
Nice == [k \in AllKeys |-> NiceName(k)]

Init ==
  /\ tid \in 1..Len(Traces)
  /\ report = ToSet(Traces[tid].obs)
  /\ todo = IF Traces[tid].out = "ok" THEN 1 ELSE 9
  /\ bad = {}

Expected(o) ==
  CASE o = "dflt" -> DefaultView(report)
    [] o = "json_all" -> JsonView(report)
    [] o = "json" -> JsonView(DefaultView(report))
    [] o = "yaml_all" -> YamlView(report, Nice)
    [] o = "yaml" -> YamlView(DefaultView(report), Nice)
    [] o = "target_json" -> TargetJson(T.cmd)
    [] o = "api" -> ApiView(report, {x[1][2] : x \in {y \in ToSet(T.views.api) : y[1][1] = "flags"}})

(* U+0085 does not survive: the YAML writer takes it for a line break to be folded *)
Nel(want) == {x[1] : x \in {y \in want : y[2][1] = "s" /\ \E i \in 1..Len(y[2][2]) : y[2][2][i] = 133}}
Legible(o, rep, want) ==
  IF o \in {"yaml", "yaml_all"} THEN LET z == Nel(want) IN {x \in rep : x[1] \notin z} ELSE rep
Differ(o, want, got) ==
  IF want = got THEN {}
  ELSE {[view |-> o, missing |-> want \ got, extra |-> got \ want]}

Produce ==
  /\ todo <= 8
  /\ LET o == Outputs[todo] IN
     bad' = bad \cup
       (IF o = "target"
          THEN IF T.views.target = TargetText(T.cmd) THEN {}
               ELSE {[view |-> o, missing |-> {}, extra |-> {}]}
          ELSE LET want == Expected(o)
                   got == ToSet(T.views[o])
               IN  Differ(o, Legible(o, want, want), Legible(o, got, want)))
  /\ todo' = todo + 1
  /\ UNCHANGED <<tid, report>>

Judge ==
  /\ todo = 9
  /\ TLCSet(tid, [id |-> T.id, out |-> T.out, bad |-> bad])
  /\ todo' = 10
  /\ UNCHANGED <<tid, report, bad>>

Spec == Init /\ [][Produce \/ Judge]_vvars
View == <<tid, todo>>
WriteVerdicts == ndJsonSerialize(IOEnv.VERDICTS, [i \in 1..Len(Traces) |-> TLCGet(i)])
=============================================================================
