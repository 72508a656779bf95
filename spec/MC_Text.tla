------------------------------- MODULE MC_Text -------------------------------
(***************************************************************************)
(* Characters one after the other, written in each encoding and read back  *)
(* (C12); what is not well-formed is recognised as such.                   *)
(***************************************************************************)
EXTENDS Text, Json, IOUtils, SequencesExt

CodePages == JsonDeserialize(IOEnv.CODEPAGES)
Deep == IOEnv.TIER = "thorough"
Stride == 1009
VARIABLE c
Rising == c < 1114112 - Stride /\ c' = c + Stride
(* the borders; in the thorough tier everything *)
Borders == {1, 127, 128, 255, 256, 2047, 2048, 55295, 55296, 56319, 56320, 57343, 57344, 65533, 65535, 65536, 131071, 1114111}
Spec == (c \in Borders \cup (IF Deep THEN 1..Stride ELSE {})) /\ [][Rising]_c

Surrogate == c >= 55296 /\ c < 57344
U8(x, n) == CASE n = 1 -> <<x>> [] n = 2 -> <<192 + (x \div 64), 128 + (x % 64)>>
              [] n = 3 -> <<224 + (x \div 4096), 128 + ((x \div 64) % 64), 128 + (x % 64)>>
              [] n = 4 -> <<240 + (x \div 262144), 128 + ((x \div 4096) % 64), 128 + ((x \div 64) % 64), 128 + (x % 64)>>
N8(x) == IF x < 128 THEN 1 ELSE IF x < 2048 THEN 2 ELSE IF x < 65536 THEN 3 ELSE 4
Le(u) == <<u % 256, u \div 256>>
U16s(x) == IF x < 65536 THEN Le(x) ELSE Le(55296 + (x - 65536) \div 1024) \o Le(56320 + ((x - 65536) % 1024))
UTF8 == [kind |-> "utf8"]

Utf8 ==
  LET b == <<97>> \o U8(c, N8(c)) \o <<98>> IN
  IF Surrogate THEN ~Utf8Ok(b, 0, Len(b))
  ELSE Utf8Ok(b, 0, Len(b)) /\ Utf8Cps(b, 0, Len(b)) = <<97, c, 98>> /\ Utf8Lossy(b, 0, Len(b), <<>>) = <<97, c, 98>>
(* longer than need be, or cut, or alone: not UTF-8; the letters around it survive *)
NotUtf8 ==
  /\ \A n \in (N8(c) + 1)..4 : ~Utf8Ok(U8(c, n), 0, n)
  /\ \A n \in 1..(N8(c) - 1) :
       LET b == <<97>> \o SubSeq(U8(c, N8(c)), 1, n) \o <<98>>
           r == Decode(b, 0, Len(b), UTF8)
       IN  /\ ~Utf8Ok(b, 0, Len(b)) /\ r.warns = 1
           /\ Head(r.cps) = 97 /\ Last(r.cps) = 98 /\ \E i \in DOMAIN r.cps : r.cps[i] = FFFD
           /\ ~Surrogate => Len(r.cps) = 3
Utf16 ==
  LET b == Le(97) \o U16s(c) \o Le(98)
      r == Wide(b, 0, Len(b))
      odd == Wide(b \o <<7>>, 0, Len(b) + 1)
      ended == Wide(b \o <<0, 0, 99, 0>>, 0, Len(b) + 4)
  IN  IF Surrogate THEN r = [cps |-> <<97, FFFD, 98>>, warns |-> 1]
      ELSE /\ r = [cps |-> <<97, c, 98>>, warns |-> 0] /\ ended = r
           /\ odd = [cps |-> <<97, c, 98, FFFD>>, warns |-> 1]
(* what a single-byte code page can write, it reads back; and a byte it does not have is not lost silently *)
Pages == {p \in DOMAIN CodePages : CodePages[p].kind = "single"}
Paged == \A p \in Pages :
  LET tab == CodePages[p] IN
  /\ \A x \in {k \in 1..256 : tab.one[k] = c} : Ansi(<<97, x - 1, 98, 0, 99>>, 0, 5, tab) = [cps |-> <<97, c, 98>>, warns |-> 0]
  /\ c < 256 => (tab.one[c + 1] = -1 => Ansi(<<97, c, 98>>, 0, 3, tab) = [cps |-> <<97, FFFD, 98>>, warns |-> 1])
=============================================================================
