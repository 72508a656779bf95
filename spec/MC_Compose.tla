----------------------------- MODULE MC_Compose -----------------------------
(***************************************************************************)
(* A link, and each of its sections by itself in a link (C03): the report  *)
(* of the link is that of its sections, put together, wherever they lie;   *)
(* so are its defects and its size.                                        *)
(***************************************************************************)
EXTENDS LnkParse, Json, IOUtils

CodePageFile == JsonDeserialize(IOEnv.CODEPAGES)
Docs == ndJsonDeserialize(IOEnv.DOCS)      \* sections, written by Sweep
Deep == IOEnv.TIER = "thorough"

VARIABLES pick, run, whole, parts
tvars == <<vars, pick, run, whole, parts>>

Order == <<"list", "info", "strs", "extra">>
Of(k) == {i \in 1..Len(Docs) : Docs[i].k = k}
BitAt(i) == AsSeq([k \in 1..4 |-> IF i \div 8 = k - 1 THEN 2 ^ (i % 8) ELSE 0])
RECURSIVE Plus(_, _)
Plus(on, i) == IF i > 31 THEN <<0, 0, 0, 0>>
               ELSE LET r == Plus(on, i + 1) IN IF i \in on THEN AsSeq([k \in 1..4 |-> r[k] + BitAt(i)[k]]) ELSE r
(* the link of the sections in s (numbers of Docs) *)
FlagsOf(s) == UNION { CASE Docs[i].k = "list" -> (IF Docs[i].b = <<>> THEN {} ELSE {0})
                        [] Docs[i].k = "info" -> (IF Docs[i].b = <<>> THEN {} ELSE {1}) \cup (IF "f" \in DOMAIN Docs[i] THEN {8} ELSE {})
                        [] Docs[i].k = "strs" -> {Docs[i].on[j] + 1 : j \in 1..Len(Docs[i].on)} \cup (IF Docs[i].u THEN {7} ELSE {})
                        [] OTHER -> {} : i \in s }
BytesOf(s, k) == LET z == {i \in s : Docs[i].k = k} IN IF z = {} THEN <<>> ELSE Docs[CHOOSE i \in z : TRUE].b
LinkOf(s) == <<76, 0, 0, 0, 1, 20, 2, 0, 0, 0, 0, 0, 192, 0, 0, 0, 0, 0, 0, 70>> \o Plus(FlagsOf(s), 0) \o AsSeq([i \in 1..52 |-> 0])
             \o BytesOf(s, "list") \o BytesOf(s, "info") \o BytesOf(s, "strs") \o BytesOf(s, "extra")
JobOf(s) == [b |-> LinkOf(s), cp |-> "cp1252", atb |-> TRUE]

Init == \E p \in {Q \in [1..4 -> 1..Len(Docs)] : \A k \in 1..4 : Q[k] \in Of(Order[k])} :
          /\ Deep \/ (p[1] + 3 * p[2] + 2 * p[3] + p[4]) % 7 = 0
          /\ StartWith(JobOf({p[k] : k \in 1..4}))
          /\ pick = p /\ run = 0 /\ whole = <<>> /\ parts = <<>>
Outcome == [must |-> must, may |-> may, free |-> free, warns |-> warns, szlo |-> szlo, szhi |-> szhi]
Go == phase # "done" /\ Next /\ UNCHANGED <<pick, run, whole, parts>>
Restart ==
  /\ phase = "done" /\ run < 4
  /\ IF run = 0 THEN whole' = Outcome /\ UNCHANGED parts ELSE parts' = Append(parts, Outcome) /\ UNCHANGED whole
  /\ run' = run + 1
  /\ job' = JobOf({pick[run + 1]})
  /\ phase' = "header" /\ pos' = 0 /\ lim' = 0 /\ after' = 0 /\ n' = 0
  /\ must' = {} /\ blk' = <<>> /\ may' = {} /\ free' = {} /\ warns' = 0
  /\ cmd' = NoCmd /\ szlo' = 0 /\ szhi' = 0
  /\ UNCHANGED pick
AtEnd == phase = "done" /\ run = 4
Rest == AtEnd /\ UNCHANGED tvars
Spec == Init /\ [][Go \/ Restart \/ Rest]_tvars

All == Append(parts, Outcome)
Own == <<"target", "link_info", "data", "extra">>
Under(r, k) == {x \in r : x[1][1] = k}
Composed == AtEnd => \A k \in 1..4 : /\ Under(whole.must, Own[k]) = Under(All[k].must, Own[k])
                                     /\ Under(whole.may, Own[k]) = Under(All[k].may, Own[k])
                                     /\ {f \in whole.free : f[1] = Own[k]} = {f \in All[k].free : f[1] = Own[k]}
Nothing == AtEnd => \A x \in whole.must : x[1][1] \in {"header", "size"} \cup {Own[k] : k \in 1..4}
Defects == AtEnd => whole.warns = All[1].warns + All[2].warns + All[3].warns + All[4].warns
Sizes == AtEnd => whole.szlo = All[1].szlo + All[2].szlo + All[3].szlo + All[4].szlo - 3 * 76
View == <<pick, run, phase, pos, n, lim>>
=============================================================================
