--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The command line: lnkparse [-t] [-j] [-a] [-c CODEPAGE] FILE, options   *)
(* in any order and spelling, before or behind the file.                   *)
(*                                                                         *)
(* A word of the command line is a record: [w, k, v] with w its text(s) as *)
(* a sequence of arguments, k its meaning and v what goes with it:         *)
(*   k = "switches", v = set of "t", "j", "a"   (-t, --target, -tj, ...)   *)
(*   k = "cp",       v = code page              (-c X, -cX, --codepage=X)  *)
(*   k = "file",     v = number of the file, 0: one that is not there      *)
(*   k = "end",      v = ""                     (--)                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

OutputOf(switches) ==
  IF "t" \in switches THEN (IF "j" \in switches THEN "target_json" ELSE "target")
  ELSE IF "j" \in switches THEN (IF "a" \in switches THEN "print_json_all" ELSE "print_json")
  ELSE IF "a" \in switches THEN "text_all" ELSE "text"

Ws(words, k) == SelectSeq(words, LAMBDA x : x.k = k)
SetOf(v) == {v[i] : i \in 1..Len(v)}
Switches(words) == UNION {SetOf(Ws(words, "switches")[i].v) : i \in 1..Len(Ws(words, "switches"))}
(* the last code page counts *)
CodePageOf(words) == LET c == Ws(words, "cp") IN IF c = <<>> THEN "cp1252" ELSE c[Len(c)].v
FilesOf(words) == Ws(words, "file")

(* what the tool does: [exit: "zero" or "other", doc, cp, out]; doc 0: no report *)
Effect(words) ==
  IF Len(FilesOf(words)) # 1 \/ FilesOf(words)[1].v = 0
    THEN [exit |-> "other", doc |-> 0, cp |-> "", out |-> ""]
  ELSE [exit |-> "zero", doc |-> FilesOf(words)[1].v, cp |-> CodePageOf(words), out |-> OutputOf(Switches(words))]
=============================================================================
