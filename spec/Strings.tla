------------------------------- MODULE Strings -------------------------------
(***************************************************************************)
(* StringData ([MS-SHLLINK] 2.4) and the command built from it.            *)
(***************************************************************************)
EXTENDS Bytes, Text, Header

StringKey  == <<"description", "relative_path", "working_directory", "command_line_arguments", "icon_location">>
StringFlag == <<BHasName, BHasRelPath, BHasWorkDir, BHasArgs, BHasIcon>>
Limited(i) == i <= 3           \* shown by Windows up to 260 characters only
LIMIT == 260

(* i-th string at pos, file ending at hi: [ok, cps, warns, next] *)
StringAt(b, i, pos, hi, tab) ==
  IF pos + 2 > hi THEN [ok |-> FALSE, cps |-> <<>>, warns |-> 1, next |-> pos]
  ELSE LET n0 == U16(b, pos)
           n == IF Limited(i) /\ n0 > LIMIT THEN LIMIT ELSE n0
           uni == LinkFlag(b, BIsUnicode)
           len == IF uni THEN 2 * n ELSE n
           e == Min2(hi, pos + 2 + len)
           t == IF uni THEN Wide(b, pos + 2, e) ELSE Ansi(b, pos + 2, e, tab)
       IN  [ok |-> TRUE, cps |-> t.cps, warns |-> t.warns, next |-> pos + 2 + len]

(***************************************************************************)
(* The command of a link: its relative path, quoted like Windows quotes an *)
(* argument, then its arguments as they stand; a missing text adds nothing.*)
(***************************************************************************)
BSL == 92  QUOTE == 34  SPACE == 32  TAB == 9
Quoted(s) ==
  LET need == s = <<>> \/ \E i \in 1..Len(s) : s[i] \in {SPACE, TAB}
      \* length of the run of backslashes that ends just before position i
      run(i) == LET Z == {j \in 0..(i - 1) : \A k \in (j + 1)..(i - 1) : s[k] = BSL}
                IN  i - 1 - MinOf(Z)
      out(i) == IF s[i] = QUOTE THEN AsSeq([k \in 1..(run(i) + 1) |-> BSL]) \o <<QUOTE>> ELSE <<s[i]>>
      RECURSIVE cat(_, _)
      cat(i, j) == IF i > j THEN <<>>
                   ELSE IF i = j THEN out(i)
                   ELSE LET m == (i + j) \div 2 IN cat(i, m) \o cat(m + 1, j)
      body == cat(1, Len(s))
  IN  IF need THEN <<QUOTE>> \o body \o AsSeq([k \in 1..run(Len(s) + 1) |-> BSL]) \o <<QUOTE>>
              ELSE body
(* rel, args: <<>> if absent, else <<text>> *)
Command(rel, args) ==
  IF rel # <<>> /\ args # <<>> THEN Quoted(rel[1]) \o <<SPACE>> \o args[1]
  ELSE IF rel # <<>> THEN Quoted(rel[1])
  ELSE IF args # <<>> THEN args[1]
  ELSE <<>>
=============================================================================
