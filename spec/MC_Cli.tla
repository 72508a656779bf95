------------------------------- MODULE MC_Cli -------------------------------
(***************************************************************************)
(* Every command line with each option at most once (twice for the code    *)
(* page when Deep), in every order and a choice of spellings.              *)
(***************************************************************************)
EXTENDS Cli, TLC, CSV, Json, IOUtils

Deep == IOEnv.TIER = "thorough"
VARIABLE words

Sw(w, v) == [w |-> <<w>>, k |-> "switches", v |-> v]
Spellings ==
  {Sw("-t", <<"t">>), Sw("--target", <<"t">>), Sw("-j", <<"j">>), Sw("--json", <<"j">>), Sw("-a", <<"a">>), Sw("--all", <<"a">>),
   Sw("-tj", <<"t", "j">>), Sw("-aj", <<"a", "j">>), Sw("-ta", <<"t", "a">>), Sw("-jat", <<"j", "a", "t">>)}
Pages == {"cp437", "ascii", "cp1251"}
CpWords == UNION {{[w |-> <<"-c", p>>, k |-> "cp", v |-> p], [w |-> <<"-c" \o p>>, k |-> "cp", v |-> p],
                   [w |-> <<"--codepage", p>>, k |-> "cp", v |-> p], [w |-> <<"--codepage=" \o p>>, k |-> "cp", v |-> p]} : p \in Pages}
(* a switch followed by the code page in one argument *)
Files == {[w |-> <<"FILE">>, k |-> "file", v |-> 1]}
NoFile == {[w |-> <<"MISSING">>, k |-> "file", v |-> 0]}

Used == Switches(words)
Init == words = <<>>
AddSwitch == \E x \in Spellings : SetOf(x.v) \cap Used = {} /\ words' = Append(words, x)
AddCp == \E x \in CpWords : /\ Len(Ws(words, "cp")) < (IF Deep THEN 2 ELSE 1)
                           /\ words' = Append(words, x)
AddFile == \E x \in Files \cup NoFile : Ws(words, "file") = <<>> /\ words' = Append(words, x)
Next == Len(words) < (IF Deep THEN 6 ELSE 5) /\ (AddSwitch \/ AddCp \/ AddFile)
Spec == Init /\ [][Next]_words

(* -t decides, whatever -a says; without a file there is no report *)
TargetWins == "t" \in Used => Effect(words).out \in {"", "target", "target_json"}
NoFileNoReport == (Ws(words, "file") = <<>>) => Effect(words).exit = "other"
OrderFree == \A i \in 1..Len(words) :
               Len(Ws(words, "cp")) <= 1 =>
                 Effect(words) = Effect(SubSeq(words, i, Len(words)) \o SubSeq(words, 1, i - 1))
WriteOut == CSVWrite("%1$s", <<ToJson(words)>>, IOEnv.OUT)
=============================================================================
