------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Bytes, little-endian integers, hexadecimal, GUIDs.                      *)
(*                                                                         *)
(* A file is a sequence of numbers 0..255.  Offsets are 0-based, as in     *)
(* [MS-SHLLINK]; a window [lo, hi) is the half-open range of offsets a     *)
(* structure may be read from.                                             *)
(*                                                                         *)
(* TLC integers are 32-bit signed, so a 32-bit field used as a size or an  *)
(* offset is clipped at BIG (far above any input), and a 32-bit field that *)
(* is reported is kept as two 16-bit limbs.                                *)
(*                                                                         *)
(* A reported value is a tagged tuple:                                     *)
(*   <<"n">>                        nothing (null / None)                  *)
(*   <<"i", neg, limb2, limb1, limb0>>  an integer, base-65536 magnitude   *)
(*   <<"s", codepoints>>            a text                                 *)
(*   <<"d", days, secs, us>>        an instant, days since 1601-01-01 UTC  *)
(*   <<"o">>, <<"l">>               an empty object, an empty list         *)
(* A report is a set of <<path, value>> pairs; a path is a sequence of     *)
(* keys, list positions being written "#0", "#1", ...                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

BIG == 268435456

Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x > y THEN x ELSE y
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Clip(x) == IF x > BIG THEN BIG ELSE x

AsSeq(f) == <<>> \o f
Total(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)

At(b, o)  == b[o + 1]
U16(b, o) == b[o + 1] + 256 * b[o + 2]
U32(b, o) == IF b[o + 4] >= 16 THEN BIG
             ELSE b[o + 1] + 256 * b[o + 2] + 65536 * b[o + 3] + 16777216 * b[o + 4]
IsZero32(b, o) == b[o+1] = 0 /\ b[o+2] = 0 /\ b[o+3] = 0 /\ b[o+4] = 0

BitOf(b, o, k) == (b[o + 1 + (k \div 8)] \div (2 ^ (k % 8))) % 2
Bit(n, k) == (n \div (2 ^ k)) % 2

(* values *)
None      == <<"n">>
IntV(n)   == IF n >= 0 THEN <<"i", 0, 0, n \div 65536, n % 65536>>
                       ELSE <<"i", 1, 0, (-n) \div 65536, (-n) % 65536>>
U32V(b, o) == <<"i", 0, 0, U16(b, o + 2), U16(b, o)>>
U16V(b, o) == <<"i", 0, 0, 0, U16(b, o)>>
I16V(b, o) == LET n == U16(b, o) IN IF n >= 32768 THEN <<"i", 1, 0, 0, 65536 - n>>
                                                  ELSE <<"i", 0, 0, 0, n>>
I32V(b, o) == LET l == U16(b, o)
                  h == U16(b, o + 2)
              IN  IF h < 32768 THEN <<"i", 0, 0, h, l>>
                  ELSE IF l = 0 THEN <<"i", 1, 0, 65536 - h, 0>>
                                ELSE <<"i", 1, 0, 65535 - h, 65536 - l>>

(* texts *)
ASCII == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CharCode == [c \in {SubSeq(ASCII, i, i) : i \in 1..95} |->
                31 + CHOOSE i \in 1..95 : SubSeq(ASCII, i, i) = c]
Cps(s) == AsSeq([i \in 1..Len(s) |-> CharCode[SubSeq(s, i, i)]])
Text(cps) == <<"s", cps>>
S(s) == Text(Cps(s))

HexUp(d) == IF d < 10 THEN 48 + d ELSE 55 + d
HexLo(d) == IF d < 10 THEN 48 + d ELSE 87 + d
Byte2Up(x) == <<HexUp(x \div 16), HexUp(x % 16)>>
Byte2Lo(x) == <<HexLo(x \div 16), HexLo(x % 16)>>

Nibbles32(b, o) == <<At(b,o+3) \div 16, At(b,o+3) % 16, At(b,o+2) \div 16, At(b,o+2) % 16,
                     At(b,o+1) \div 16, At(b,o+1) % 16, At(b,o) \div 16, At(b,o) % 16>>
(* like hex(): no leading zeros *)
HexMin32(b, o) ==
  LET n == Nibbles32(b, o)
      nz == {i \in 1..8 : n[i] # 0}
      k == IF nz = {} THEN 8 ELSE MinOf(nz)
  IN  <<48, 120>> \o AsSeq([i \in 1..(9 - k) |-> HexLo(n[k + i - 1])])
Hex8(b, o) == LET n == Nibbles32(b, o) IN <<48, 120>> \o AsSeq([i \in 1..8 |-> HexUp(n[i])])

DASH == 45
GuidCps(b, o) ==
  LET x(i) == Byte2Up(At(b, o + i))
  IN  x(3) \o x(2) \o x(1) \o x(0) \o <<DASH>> \o x(5) \o x(4) \o <<DASH>> \o x(7) \o x(6)
      \o <<DASH>> \o x(8) \o x(9) \o <<DASH>>
      \o x(10) \o x(11) \o x(12) \o x(13) \o x(14) \o x(15)
GuidV(b, o) == Text(GuidCps(b, o))

(* reports *)
Idx(i) == "#" \o ToString(i)
P(path, val) == <<path, val>>
HasPrefix(path, pre) == Len(path) >= Len(pre) /\ SubSeq(path, 1, Len(pre)) = pre

(* result of decoding one structure *)
Res(must, warns) == [must |-> must, may |-> {}, free |-> {}, warns |-> warns, ok |-> TRUE]
Damaged == [must |-> {}, may |-> {}, free |-> {}, warns |-> 1, ok |-> FALSE]
=============================================================================
