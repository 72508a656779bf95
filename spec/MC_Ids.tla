-------------------------------- MODULE MC_Ids --------------------------------
(***************************************************************************)
(* Identifiers written and read back, digests against given ones (C21).    *)
(*                                                                         *)
(* Every bit of a GUID by itself, and some more: its text gives back its   *)
(* bytes; packed into twenty characters it is the same GUID.  DIGESTS: a   *)
(* file of [n, sha]: the digest of n bytes by another implementation.      *)
(***************************************************************************)
EXTENDS Extra, Build, Json, IOUtils

Digests == ndJsonDeserialize(IOEnv.DIGESTS)
VARIABLE g
Bit16(k) == AsSeq([i \in 1..16 |-> IF (k - 1) \div 8 = i - 1 THEN 2 ^ ((k - 1) % 8) ELSE 0])
Guids == {Bit16(k) : k \in 1..128} \cup {G(k) : k \in 0..255} \cup {Fill(16, k) : k \in {0, 1, 15, 16, 85, 170, 255}}
         \cup {AsSeq([i \in 1..16 |-> (i * k + (k * k) \div 7) % 256]) : k \in 1..300}
Init == g \in Guids
Spec == Init /\ [][UNCHANGED g]_g

(* how it is read: hexadecimal digits, first three groups from the last byte to the first *)
Digit(x) == IF x < 58 THEN x - 48 ELSE x - 55
ByteAt(t, i) == 16 * Digit(t[i]) + Digit(t[i + 1])
BytesOf(t) == <<ByteAt(t, 7), ByteAt(t, 5), ByteAt(t, 3), ByteAt(t, 1), ByteAt(t, 12), ByteAt(t, 10), ByteAt(t, 17), ByteAt(t, 15),
                ByteAt(t, 20), ByteAt(t, 22), ByteAt(t, 25), ByteAt(t, 27), ByteAt(t, 29), ByteAt(t, 31), ByteAt(t, 33), ByteAt(t, 35)>>
Upper(x) == x = 45 \/ (x >= 48 /\ x <= 57) \/ (x >= 65 /\ x <= 70)
TextForm ==
  LET t == GuidCps(g, 0) IN
  /\ Len(t) = 36 /\ {i \in 1..36 : t[i] = 45} = {9, 14, 19, 24}
  /\ \A i \in 1..36 : Upper(t[i])
  /\ BytesOf(t) = g

(* packing: each four bytes, little-endian, as five digits of base 85, least significant first *)
RECURSIVE Pack4(_, _)
Pack4(be, k) ==              \* big-endian bytes, k digits left
  IF k = 0 THEN <<>>
  ELSE LET q == DivDigits(be, 85, 0) IN <<BASE85[q[2] + 1]>> \o Pack4(q[1], k - 1)
Pack(b) == Pack4(Rev(SubSeq(b, 1, 4)), 5) \o Pack4(Rev(SubSeq(b, 5, 8)), 5) \o Pack4(Rev(SubSeq(b, 9, 12)), 5) \o Pack4(Rev(SubSeq(b, 13, 16)), 5)
Packed ==
  LET t == Pack(g)
      r == PackedGuid(t)
  IN  /\ Len(t) = 20 /\ r.k = "ok" /\ r.v = Text(GuidCps(g, 0))
      /\ PackedGuid(t \o <<62>>).v = r.v
      /\ PackedGuid(SubSeq(t, 1, 19)).k = "short"
DigestsMatch ==
  g = Zeros(16) => \A i \in 1..Len(Digests) :
    LET n == Digests[i].n
        b == AsSeq([k \in 1..(n + 2) |-> (7 * k + n) % 256])
    IN  ShaCps(b, 1, n + 1) = Digests[i].sha
=============================================================================
