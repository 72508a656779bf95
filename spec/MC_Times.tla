------------------------------- MODULE MC_Times -------------------------------
(***************************************************************************)
(* A calendar that ticks from day to day by nothing but the rule of leap   *)
(* years, with what the time stamps of these days say (C02): the count of  *)
(* days gives the date and the date the count, the FILETIME and the FAT    *)
(* date of the day are read as the instant they were made from.            *)
(***************************************************************************)
EXTENDS Times, Build, IOUtils

VARIABLES y, m, d, days, left
vars == <<y, m, d, days, left>>
Deep == IOEnv.TIER = "thorough"

(* the first of January of these years, counted in centuries of 36524 or 36525 days *)
Centuries(k) == 36524 * k + (k \div 4)         \* from 1601
Init == \E k \in (IF Deep THEN -16..83 ELSE {-16, -12, -1, 0, 1, 2, 3, 4, 40, 83}) :
          \* quick: the years before and after the one that ends a century; else all of it
          /\ y = 1601 + 100 * k + (IF Deep THEN 0 ELSE 98) /\ m = 1 /\ d = 1
          /\ days = Centuries(k) + (IF Deep THEN 0 ELSE 98 * 365 + 24)
          /\ left = IF Deep THEN 36530 ELSE IF k = 3 THEN 4000 ELSE 1500
Long == {1, 3, 5, 7, 8, 10, 12}
LastOf == IF m \in Long THEN 31 ELSE IF m # 2 THEN 30
          ELSE IF y % 4 # 0 THEN 28 ELSE IF y % 100 # 0 THEN 29 ELSE IF y % 400 = 0 THEN 29 ELSE 28
Tick ==
  /\ left > 0 /\ left' = left - 1 /\ days' = days + 1
  /\ IF d < LastOf THEN d' = d + 1 /\ m' = m /\ y' = y
     ELSE IF m < 12 THEN d' = 1 /\ m' = m + 1 /\ y' = y
     ELSE d' = 1 /\ m' = 1 /\ y' = y + 1
Rest == left = 0 /\ UNCHANGED vars
Spec == Init /\ [][Tick \/ Rest]_vars

Counts == y < 10000 => DaysFromCivil(y, m, d) = days
Dates == y < 10000 => CivilFromDays(days) = [y |-> y, m |-> m, d |-> d]
Sec1 == ((days % 20000) * 7919) % 86400
Sec == IF Sec1 < 0 THEN Sec1 + 86400 ELSE Sec1
Tick1 == ((days % 200000) * 7907) % 10000000
Sub == IF Tick1 < 0 THEN Tick1 + 10000000 ELSE Tick1
Stamp(s, t) ==
  LET b == TicksOf(days, s, t)
      r == FileTime(b, 0)
      edge == days >= DaysTo10000 - 1 \/ days <= -DaysFrom1
      exact == r.k = "ok" /\ (r.v = <<"d", days, s, t \div 10>> \/ (days < 0 /\ t % 10 # 0))
  IN  Len(b) = 8 /\ (IF days = 0 /\ s = 0 /\ t = 0 THEN r.k = "zero" ELSE IF days >= DaysTo10000 THEN r.k \in {"edge", "bad"} ELSE exact \/ (edge /\ r.k = "edge"))
FileTimes == Stamp(Sec, Sub) /\ Stamp(0, 0) /\ Stamp(86399, 9999999) /\ Stamp(0, 10) /\ Stamp(Sec, 0)
Fat == (y >= 1980 /\ y <= 2107) =>
  LET r == DosTime(DosOf(y, m, d, Sec \div 3600, (Sec \div 60) % 60, Sec % 60), 0)
  IN  r.k = "ok" /\ r.v = <<"d", days, Sec - (Sec % 2), 0>>
      /\ (d = LastOf /\ d < 31) => DosTime(DosOf(y, m, d + 1, 1, 2, 3), 0).k = "bad"
=============================================================================
