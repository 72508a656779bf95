-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Texts: NUL-terminated strings in a single-byte code page, in UTF-8 or   *)
(* in UTF-16LE, and what is reported for bytes that are not text.          *)
(*                                                                         *)
(* A code page is a table of 256 code points, -1 where the byte means      *)
(* nothing, or one of pairs of bytes, or UTF-8.  A byte string that the code page cannot decode is tried as    *)
(* UTF-8 and, failing that, decoded with U+FFFD for every undefined byte,  *)
(* with a warning.  UTF-16LE that is ill-formed is decoded with U+FFFD for *)
(* every ill-formed part, with a warning.                                  *)
(*                                                                         *)
(* Every operator returns [cps, warns].                                    *)
(***************************************************************************)
EXTENDS Bytes

FFFD == 65533

(* offset just behind the last byte before the first NUL of [lo, hi) *)
CutAt(b, lo, hi) ==
  IF lo >= hi THEN lo
  ELSE LET Z == {i \in lo..(hi - 1) : b[i + 1] = 0}
       IN  IF Z = {} THEN hi ELSE MinOf(Z)

(***************************************************************************)
(* UTF-8, strictly.  L(i): length of the sequence that byte i starts, 0 if *)
(* it starts none (continuation bytes and bytes that never occur).         *)
(***************************************************************************)
LeadLen(x) == IF x < 128 THEN 1
              ELSE IF x < 194 THEN 0
              ELSE IF x < 224 THEN 2
              ELSE IF x < 240 THEN 3
              ELSE IF x < 245 THEN 4 ELSE 0
IsCont(x) == x >= 128 /\ x < 192
SecondOk(l, x) == CASE l = 224 -> x >= 160 /\ x < 192
                    [] l = 237 -> x >= 128 /\ x < 160
                    [] l = 240 -> x >= 144 /\ x < 192
                    [] l = 244 -> x >= 128 /\ x < 144
                    [] OTHER   -> IsCont(x)
Utf8Ok(b, lo, hi) ==
  \A i \in lo..(hi - 1) :
    LET l == LeadLen(At(b, i)) IN
    IF l > 0
      THEN /\ i + l <= hi
           /\ l > 1 => SecondOk(At(b, i), At(b, i + 1))
           /\ \A k \in 2..(l - 1) : IsCont(At(b, i + k))
      ELSE /\ IsCont(At(b, i))
           /\ \E k \in 1..3 : /\ i - k >= lo
                              /\ LeadLen(At(b, i - k)) > k
Utf8Cp(b, i) ==
  LET x == At(b, i)
      l == LeadLen(x)
      c(k) == At(b, i + k) - 128
  IN  CASE l = 1 -> x
        [] l = 2 -> (x - 192) * 64 + c(1)
        [] l = 3 -> (x - 224) * 4096 + c(1) * 64 + c(2)
        [] OTHER -> (x - 240) * 262144 + c(1) * 4096 + c(2) * 64 + c(3)
IndexSeq(lo, hi) == AsSeq([i \in 1..(hi - lo) |-> lo + i - 1])
Utf8Cps(b, lo, hi) ==
  LET lead(i) == LeadLen(At(b, i)) > 0
      ls == SelectSeq(IndexSeq(lo, hi), lead)
  IN  AsSeq([k \in 1..Len(ls) |-> Utf8Cp(b, ls[k])])

(***************************************************************************)
(* UTF-8 with U+FFFD for every ill-formed part: a byte that starts nothing,*)
(* or the longest beginning of a sequence that does not go on (Unicode,    *)
(* 3.9, "maximal subparts").                                               *)
(***************************************************************************)
GoodLen(b, i, hi) ==        \* how many bytes from i on belong to the sequence that starts there
  LET l == LeadLen(At(b, i)) IN
  IF l <= 1 THEN 1
  ELSE IF i + 1 >= hi \/ ~SecondOk(At(b, i), At(b, Min2(i + 1, hi - 1))) THEN 1
  ELSE IF l = 2 THEN 2
  ELSE IF i + 2 >= hi \/ ~IsCont(At(b, Min2(i + 2, hi - 1))) THEN 2
  ELSE IF l = 3 THEN 3
  ELSE IF i + 3 >= hi \/ ~IsCont(At(b, Min2(i + 3, hi - 1))) THEN 3 ELSE 4
RECURSIVE Utf8Lossy(_, _, _, _)
Utf8Lossy(b, i, hi, acc) ==
  IF i >= hi THEN acc
  ELSE LET n == GoodLen(b, i, hi) IN
       Utf8Lossy(b, i + n, hi, Append(acc, IF LeadLen(At(b, i)) = n THEN Utf8Cp(b, i) ELSE FFFD))

(***************************************************************************)
(* A double-byte code page: bytes that are characters (one), and bytes     *)
(* that lead a pair (two: for each, what every second byte makes of it).   *)
(***************************************************************************)
IsLead(tab, x) == ToString(x) \in DOMAIN tab.two
RECURSIVE DoubleOk(_, _, _, _)
DoubleOk(b, i, hi, tab) ==
  IF i >= hi THEN TRUE
  ELSE IF tab.one[At(b, i) + 1] # -1 THEN DoubleOk(b, i + 1, hi, tab)
  ELSE /\ IsLead(tab, At(b, i)) /\ i + 1 < hi
       /\ tab.two[ToString(At(b, i))][At(b, i + 1) + 1] # -1
       /\ DoubleOk(b, i + 2, hi, tab)
RECURSIVE DoubleCps(_, _, _, _, _)
DoubleCps(b, i, hi, tab, acc) ==
  IF i >= hi THEN acc
  ELSE LET x == At(b, i)
           c == IF tab.one[x + 1] # -1 THEN tab.one[x + 1]
                ELSE IF ~IsLead(tab, x) \/ i + 1 >= hi THEN -1
                ELSE tab.two[ToString(x)][At(b, Min2(i + 1, hi - 1)) + 1]
           n == IF c # -1 /\ tab.one[x + 1] = -1 THEN 2 ELSE 1
       IN  DoubleCps(b, i + n, hi, tab, Append(acc, IF c = -1 THEN FFFD ELSE c))

(* the bytes [lo, hi), no NUL cut; tab: a code page *)
Strictly(b, lo, hi, tab) ==
  CASE tab.kind = "single" -> \A i \in lo..(hi - 1) : tab.one[At(b, i) + 1] # -1
    [] tab.kind = "utf8" -> Utf8Ok(b, lo, hi)
    [] tab.kind = "double" -> DoubleOk(b, lo, hi, tab)
Lossily(b, lo, hi, tab) ==
  CASE tab.kind = "single" -> AsSeq([k \in 1..(hi - lo) |->
                                LET c == tab.one[At(b, lo + k - 1) + 1] IN IF c = -1 THEN FFFD ELSE c])
    [] tab.kind = "utf8" -> IF Utf8Ok(b, lo, hi) THEN Utf8Cps(b, lo, hi) ELSE Utf8Lossy(b, lo, hi, <<>>)
    [] tab.kind = "double" -> DoubleCps(b, lo, hi, tab, <<>>)
Decode(b, lo, hi, tab) ==
  IF lo >= hi THEN [cps |-> <<>>, warns |-> 0]
  ELSE IF Strictly(b, lo, hi, tab) THEN [cps |-> Lossily(b, lo, hi, tab), warns |-> 0]
  ELSE IF Utf8Ok(b, lo, hi) THEN [cps |-> Utf8Cps(b, lo, hi), warns |-> 0]
  ELSE [cps |-> Lossily(b, lo, hi, tab), warns |-> 1]

Ansi(b, lo, hi, tab) == Decode(b, lo, CutAt(b, lo, hi), tab)

(***************************************************************************)
(* UTF-16LE.  Units are taken from lo on; an odd byte at the end is an     *)
(* ill-formed part of its own, except behind an unpaired high surrogate,   *)
(* with which it forms a single ill-formed part.                           *)
(***************************************************************************)
IsHigh(u) == u >= 55296 /\ u < 56320
IsLow(u)  == u >= 56320 /\ u < 57344
Wide(b, lo, hi) ==
  IF lo >= hi THEN [cps |-> <<>>, warns |-> 0]
  ELSE
  LET full == (hi - lo) \div 2
      Z    == {k \in 1..full : b[lo + 2*k - 1] = 0 /\ b[lo + 2*k] = 0}
      n    == IF Z = {} THEN full ELSE MinOf(Z) - 1
      odd  == Z = {} /\ (hi - lo) % 2 = 1
      u    == [k \in 1..n |-> b[lo + 2*k - 1] + 256 * b[lo + 2*k]]
      sur  == {k \in 1..n : u[k] >= 55296 /\ u[k] < 57344}
  IN  IF sur = {}
        THEN [cps |-> AsSeq(u) \o (IF odd THEN <<FFFD>> ELSE <<>>), warns |-> IF odd THEN 1 ELSE 0]
      ELSE
      LET paired(k)  == IsHigh(u[k]) /\ k < n /\ IsLow(u[k + 1])
          absorbed(k) == IsLow(u[k]) /\ k > 1 /\ IsHigh(u[k - 1])
          keep(k) == ~absorbed(k)
          ks == SelectSeq(IndexSeq(1, n + 1), keep)
          cp(k) == IF paired(k) THEN 65536 + (u[k] - 55296) * 1024 + (u[k + 1] - 56320)
                   ELSE IF k \in sur THEN FFFD ELSE u[k]
          lastHigh == n > 0 /\ IsHigh(u[n])
          bad == odd \/ \E k \in sur : ~paired(k) /\ ~absorbed(k)
      IN  [cps |-> AsSeq([i \in 1..Len(ks) |-> cp(ks[i])])
                   \o (IF odd /\ ~lastHigh THEN <<FFFD>> ELSE <<>>),
           warns |-> IF bad THEN 1 ELSE 0]

(* offsets of the NULs of [lo, hi), in order: the ends of the segments *)
Segments(b, lo, hi) ==
  LET nul(i) == At(b, i) = 0
      zs == SelectSeq(IndexSeq(lo, Max2(lo, hi)), nul)
      n == Len(zs) + 1
  IN  [k \in 1..n |-> [lo |-> IF k = 1 THEN lo ELSE zs[k - 1] + 1,
                       hi |-> IF k = n THEN Max2(lo, hi) ELSE zs[k]]]
=============================================================================
