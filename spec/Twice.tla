-------------------------------- MODULE Twice --------------------------------
(***************************************************************************)
(* Two related files read one after the other: what a change to a file may *)
(* change in its report, as properties of the format itself.  A pair of    *)
(* files is [a, b, ...]; note is what the first reading leaves to be       *)
(* compared with the second.                                               *)
(***************************************************************************)
EXTENDS LnkParse, Json, IOUtils

CodePageFile == JsonDeserialize(IOEnv.CODEPAGES)
Docs == ndJsonDeserialize(IOEnv.DOCS)      \* written by Sweep
Deep == IOEnv.TIER = "thorough"

VARIABLES pair, run, note
tvars == <<vars, pair, run, note>>

JobOf(b, atb) == [b |-> b, cp |-> "cp1252", atb |-> atb]
Below(r, k) == {x \in r : HasPrefix(x[1], k)}
Paths(r) == {x[1] : x \in r}
SoFar == must \cup UNION {blk[x] : x \in DOMAIN blk}
Outcome == [must |-> must, may |-> may, free |-> free, warns |-> warns, cmd |-> cmd, szlo |-> szlo, szhi |-> szhi]

Begin(p, j) == StartWith(j) /\ pair = p /\ run = 1 /\ note = <<>>
Again(j) ==
  /\ run = 1
  /\ job' = j /\ run' = 2
  /\ phase' = "header" /\ pos' = 0 /\ lim' = 0 /\ after' = 0 /\ n' = 0
  /\ must' = {} /\ blk' = <<>> /\ may' = {} /\ free' = {} /\ warns' = 0
  /\ cmd' = NoCmd /\ szlo' = 0 /\ szhi' = 0
  /\ UNCHANGED pair
AtEnd == run = 2 /\ phase = "done"
Rest == AtEnd /\ UNCHANGED tvars         \* every other state without a step is a deadlock

(* whose bytes are read next *)
Owner ==
  CASE phase = "header" -> <<"header">>
    [] phase \in {"idlist", "items"} -> IF ItemsGoOn THEN <<"target", "items", Idx(n)>> ELSE <<"target">>
    [] phase = "linkinfo" -> <<"link_info">>
    [] phase = "strings" /\ n <= 5 -> <<"data", StringKey[n]>>
    [] phase = "extra" -> IF ~BlockGoesOn THEN <<"size">>
                          ELSE LET nm == BlockName(B, pos + 4) IN
                               IF nm = "UNKNOWN_BLOCK" THEN <<"extra", nm, Idx(n)>> ELSE <<"extra", nm>>
    [] OTHER -> <<"size">>
NothingThere == EmptyInfo.must \cup {P(ITEMS, <<"l">>), P(<<"data">>, <<"o">>), P(<<"extra">>, <<"o">>)}
=============================================================================
