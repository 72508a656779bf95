------------------------------ MODULE MC_Command ------------------------------
(***************************************************************************)
(* The command of a link is a command line that starts the right program:  *)
(* taken apart by the rules of the Microsoft C runtime, its first argument *)
(* is the relative path and the others are those of the link's arguments   *)
(* (C18).  The taking apart is a machine of its own, which reads one       *)
(* character after the other.                                              *)
(***************************************************************************)
EXTENDS Bytes, Text, Strings, IOUtils

VARIABLES rel, args, line, i, slashes, quoted, cur, some, out
vars == <<rel, args, line, i, slashes, quoted, cur, some, out>>

Deep == IOEnv.TIER = "thorough"
Alphabet == {97, SPACE, TAB, QUOTE, BSL}
WordsOf(n) == UNION {[1..k -> Alphabet] : k \in 0..n}
Arguments == { <<>>, <<97>>, <<97, SPACE, 97>>, <<QUOTE, 97, SPACE, 97, QUOTE>>, <<SPACE, 97>>, <<BSL>>, <<QUOTE>>, <<TAB, 97, TAB>> }

(* which arguments a text has, by itself *)
Init ==
  /\ rel \in {AsSeq(w) : w \in WordsOf(IF Deep THEN 6 ELSE 4)} /\ args \in Arguments
  /\ line = Command(<<rel>>, <<args>>)
  /\ i = 1 /\ slashes = 0 /\ quoted = FALSE /\ cur = <<>> /\ some = FALSE /\ out = <<>>

Here == line[i]
Pending(k) == AsSeq([j \in 1..k |-> BSL])
Backslash ==                             \* what it means depends on what follows
  /\ i <= Len(line) /\ Here = BSL
  /\ slashes' = slashes + 1 /\ some' = TRUE
  /\ UNCHANGED <<quoted, cur, out>>
QuoteMark ==                             \* 2n backslashes and it: n, and quoting begins or ends; one more: a plain one
  /\ i <= Len(line) /\ Here = QUOTE
  /\ cur' = cur \o Pending(slashes \div 2) \o (IF slashes % 2 = 1 THEN <<QUOTE>> ELSE <<>>)
  /\ quoted' = IF slashes % 2 = 1 THEN quoted ELSE ~quoted
  /\ slashes' = 0 /\ some' = TRUE
  /\ UNCHANGED out
Blank ==                                 \* outside of quotes: between arguments
  /\ i <= Len(line) /\ Here \in {SPACE, TAB} /\ ~quoted
  /\ out' = IF some THEN Append(out, cur \o Pending(slashes)) ELSE out
  /\ cur' = <<>> /\ slashes' = 0 /\ some' = FALSE
  /\ UNCHANGED quoted
Plain ==
  /\ i <= Len(line) /\ Here \notin {BSL, QUOTE} /\ (Here \in {SPACE, TAB} => quoted)
  /\ cur' = Append(cur \o Pending(slashes), Here)
  /\ slashes' = 0 /\ some' = TRUE
  /\ UNCHANGED <<quoted, out>>
EndOfLine ==
  /\ i = Len(line) + 1
  /\ out' = IF some THEN Append(out, cur \o Pending(slashes)) ELSE out
  /\ some' = FALSE /\ cur' = <<>> /\ slashes' = 0 /\ UNCHANGED quoted
Next ==
  /\ \/ Backslash \/ QuoteMark \/ Blank \/ Plain \/ EndOfLine
  /\ i' = i + 1 /\ UNCHANGED <<rel, args, line>>
Rest == i = Len(line) + 2 /\ UNCHANGED vars
Spec == Init /\ [][Next \/ Rest]_vars

ArgsAlone ==                             \* written out: the arguments of each member of Arguments
  CASE args = <<>> -> <<>> [] args = <<97>> -> <<<<97>>>> [] args = <<97, SPACE, 97>> -> <<<<97>>, <<97>>>>
    [] args = <<QUOTE, 97, SPACE, 97, QUOTE>> -> <<<<97, SPACE, 97>>>> [] args = <<SPACE, 97>> -> <<<<97>>>>
    [] args = <<BSL>> -> <<<<BSL>>>> [] args = <<QUOTE>> -> <<<<>>>> [] args = <<TAB, 97, TAB>> -> <<<<97>>>>
Starts == i = Len(line) + 2 => out = <<rel>> \o ArgsAlone
OneArgument == (i > 1 /\ i <= Len(Quoted(rel)) + 1) => out = <<>>
=============================================================================
