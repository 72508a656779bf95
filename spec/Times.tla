------------------------------- MODULE Times -------------------------------
(***************************************************************************)
(* FILETIME (100 ns ticks since 1601-01-01 UTC, read as a signed 64-bit    *)
(* count) and the packed FAT date and time.  Both report the exact instant *)
(* of the calendar, nothing for zero, and nothing with a warning for a     *)
(* count or a bit pattern that names no instant of the years 1..9999.      *)
(***************************************************************************)
EXTENDS Bytes

(* big-endian digits base 256, divided by d < 2^22: <<quotient digits, rest>> *)
RECURSIVE DivDigits(_, _, _)
DivDigits(ds, d, r) ==
  IF ds = <<>> THEN <<<<>>, r>>
  ELSE LET t == r * 256 + Head(ds)
           rest == DivDigits(Tail(ds), d, t % d)
       IN  <<<<t \div d>> \o rest[1], rest[2]>>
RECURSIVE DigitsToInt(_, _)
DigitsToInt(ds, acc) == IF ds = <<>> THEN acc ELSE DigitsToInt(Tail(ds), acc * 256 + Head(ds))

RECURSIVE Negate(_, _)           \* two's complement of little-endian digits
Negate(ds, carry) ==
  IF ds = <<>> THEN <<>>
  ELSE LET x == 255 - Head(ds) + carry IN <<x % 256>> \o Negate(Tail(ds), x \div 256)
Rev(s) == AsSeq([i \in 1..Len(s) |-> s[Len(s) + 1 - i]])

DaysTo10000 == 3067671           \* 1601-01-01 .. 10000-01-01
DaysFrom1   == 584388            \* 0001-01-01 .. 1601-01-01

(* [neg, days, secs, ticks] of the magnitude *)
Ticks(b, o) ==
  LET le  == SubSeq(b, o + 1, o + 8)
      neg == le[8] >= 128
      be  == Rev(IF neg THEN Negate(le, 1) ELSE le)
      q1  == DivDigits(be, 10000, 0)
      q2  == DivDigits(q1[1], 1000, 0)
      q3  == DivDigits(q2[1], 86400, 0)
  IN  [neg |-> neg, days |-> DigitsToInt(q3[1], 0), secs |-> q3[2], ticks |-> q2[2] * 10000 + q1[2]]

(* one of: "zero", "ok", "bad", "edge" (so close to the limits of the      *)
(* calendar that rounding decides)                                         *)
FileTime(b, o) ==
  IF \A i \in 1..8 : b[o + i] = 0 THEN [k |-> "zero", v |-> None]
  ELSE
  LET t == Ticks(b, o)
      us == t.ticks \div 10
  IN  IF ~t.neg
        THEN IF t.days >= DaysTo10000
               THEN [k |-> IF t.days = DaysTo10000 /\ t.secs < 2 THEN "edge" ELSE "bad", v |-> None]
             ELSE IF t.days = DaysTo10000 - 1 /\ t.secs > 86397
               THEN [k |-> "edge", v |-> None]
             ELSE [k |-> "ok", v |-> <<"d", t.days, t.secs, us>>]
      ELSE IF t.days > DaysFrom1 \/ (t.days = DaysFrom1 /\ t.secs > 2)
             THEN [k |-> "bad", v |-> None]
           ELSE IF t.days >= DaysFrom1 - 1 /\ (t.days = DaysFrom1 \/ t.secs > 86397)
             THEN [k |-> "edge", v |-> None]
           ELSE \* 1601-01-01 minus the magnitude
             LET u == IF us = 0 THEN 0 ELSE 1000000 - us
                 s0 == t.secs + (IF us = 0 THEN 0 ELSE 1)
                 s == IF s0 = 0 THEN 0 ELSE 86400 - s0
                 d == t.days + (IF s0 = 0 THEN 0 ELSE 1)
             IN  [k |-> "ok", v |-> <<"d", -d, s, u>>]

(***************************************************************************)
(* Calendar: days from 1601-01-01 to a date and back.                      *)
(***************************************************************************)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28
                    [] m \in {4, 6, 9, 11} -> 30
                    [] OTHER -> 31
BeforeMonth == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
DaysFromCivil(y, m, d) ==
  LET n == y - 1601                       \* years since 1601; 1601 starts a 400-year cycle
  IN  365 * n + (n \div 4) - (n \div 100) + (n \div 400)
      + BeforeMonth[m] + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0) + d - 1
CivilFromDays(days) ==
  LET y0 == 1601 + (days * 400) \div 146097      \* within one of the right year
      y  == CHOOSE k \in {y0 - 1, y0, y0 + 1} :
               DaysFromCivil(k, 1, 1) <= days /\ days < DaysFromCivil(k + 1, 1, 1)
      yd == days - DaysFromCivil(y, 1, 1)
      m  == CHOOSE k \in 1..12 : LET a == DaysFromCivil(y, k, 1) - DaysFromCivil(y, 1, 1)
                                 IN a <= yd /\ yd < a + MonthLen(y, k)
  IN  [y |-> y, m |-> m, d |-> yd - (DaysFromCivil(y, m, 1) - DaysFromCivil(y, 1, 1)) + 1]

DosTime(b, o) ==
  LET dt == U16(b, o)
      tm == U16(b, o + 2)
      y == 1980 + dt \div 512
      m == (dt \div 32) % 16
      d == dt % 32
      hh == tm \div 2048
      mm == (tm \div 32) % 64
      ss == 2 * (tm % 32)
  IN  IF dt = 0 /\ tm = 0 THEN [k |-> "zero", v |-> None]
      ELSE IF m \in 1..12 /\ d >= 1 /\ d <= MonthLen(y, m) /\ hh <= 23 /\ mm <= 59 /\ ss <= 59
        THEN [k |-> "ok", v |-> <<"d", DaysFromCivil(y, m, d), hh * 3600 + mm * 60 + ss, 0>>]
      ELSE [k |-> "bad", v |-> None]
=============================================================================
