------------------------------ MODULE Timestamp ------------------------------
(* Dates (proleptic Gregorian, UTC) and the forms the library converts them   *)
(* to and from.  A date is <<year, month, day, hour, minute, second, micros>>; *)
(* an epoch time is <<days since 1970-01-01, second of day>>.                  *)
EXTENDS Bytes

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
Valid(d) == /\ d[1] \in 1..9999 /\ d[2] \in 1..12 /\ d[3] \in 1..DaysIn(d[1], d[2])
            /\ d[4] \in 0..23 /\ d[5] \in 0..59 /\ d[6] \in 0..59 /\ d[7] \in 0..999999

(* days before year y / before month m of it, counted from 0001-01-01 *)
DaysToYear(y) == 365 * (y - 1) + (y - 1) \div 4 - (y - 1) \div 100 + (y - 1) \div 400
RECURSIVE DaysToMonth(_, _)
DaysToMonth(y, m) == IF m = 1 THEN 0 ELSE DaysToMonth(y, m - 1) + DaysIn(y, m - 1)
Ord(y, m, d) == DaysToYear(y) + DaysToMonth(y, m) + d - 1
Epoch0 == Ord(1970, 1, 1)
ToEpoch(d) == <<Ord(d[1], d[2], d[3]) - Epoch0, d[4] * 3600 + d[5] * 60 + d[6]>>
RECURSIVE YearOf(_, _)
YearOf(n, y) == IF DaysToYear(y + 1) <= n THEN YearOf(n, y + 1) ELSE y
RECURSIVE MonthOf(_, _, _)
MonthOf(n, y, m) == IF DaysIn(y, m) <= n THEN MonthOf(n - DaysIn(y, m), y, m + 1) ELSE <<m, n + 1>>
FromEpoch(e) ==
  LET n == e[1] + Epoch0
      y == YearOf(n, Max2(1, (n \div 366)))
      md == MonthOf(n - DaysToYear(y), y, 1)
  IN <<y, md[1], md[2], e[2] \div 3600, (e[2] % 3600) \div 60, e[2] % 60, 0>>
(* the same time in UTC, of a date given `off` minutes east of it *)
InUtc(d, off) ==
  LET m == d[4] * 60 + d[5] - off
      e == <<ToEpoch(d)[1] + m \div 1440, (m % 1440) * 60 + d[6]>>
  IN [FromEpoch(e) EXCEPT ![7] = d[7]]
(* 0 = Monday; 0001-01-01 was a Monday *)
Weekday(d) == Ord(d[1], d[2], d[3]) % 7

DayNames == <<<<77,111,110>>, <<84,117,101>>, <<87,101,100>>, <<84,104,117>>, <<70,114,105>>, <<83,97,116>>, <<83,117,110>>>>
MonthNames == <<<<74,97,110>>, <<70,101,98>>, <<77,97,114>>, <<65,112,114>>, <<77,97,121>>, <<74,117,110>>,
                <<74,117,108>>, <<65,117,103>>, <<83,101,112>>, <<79,99,116>>, <<78,111,118>>, <<68,101,99>>>>
Pad6(n) == Pad2(n \div 10000) \o Pad4(n % 10000)

Timestamp14(d) == Pad4(d[1]) \o Pad2(d[2]) \o Pad2(d[3]) \o Pad2(d[4]) \o Pad2(d[5]) \o Pad2(d[6])
IsoSec(d) == Pad4(d[1]) \o <<45>> \o Pad2(d[2]) \o <<45>> \o Pad2(d[3]) \o <<84>>
             \o Pad2(d[4]) \o <<58>> \o Pad2(d[5]) \o <<58>> \o Pad2(d[6])
Iso(d) == IsoSec(d) \o <<90>>
IsoMicros(d) == IsoSec(d) \o (IF d[7] = 0 THEN <<>> ELSE <<46>> \o Pad6(d[7])) \o <<90>>
HttpDate(d) == DayNames[Weekday(d) + 1] \o <<44, 32>> \o Pad2(d[3]) \o <<32>> \o MonthNames[d[2]] \o <<32>>
               \o Pad4(d[1]) \o <<32>> \o Pad2(d[4]) \o <<58>> \o Pad2(d[5]) \o <<58>> \o Pad2(d[6]) \o <<32, 71, 77, 84>>
Sec(d) == [d EXCEPT ![7] = 0]

(* ------------------------------ parsing -------------------------------- *)
(* runs of digits of a text *)
RECURSIVE NumsFrom(_, _, _, _)
NumsFrom(s, i, cur, acc) ==
  IF i > Len(s) THEN (IF cur = <<>> THEN acc ELSE Append(acc, cur))
  ELSE IF IsDigit(s[i]) THEN NumsFrom(s, i + 1, Append(cur, s[i]), acc)
  ELSE NumsFrom(s, i + 1, <<>>, IF cur = <<>> THEN acc ELSE Append(acc, cur))
PadMicros(t) == Slice(Slice(t, 1, Min2(6, Len(t))) \o <<48, 48, 48, 48, 48, 48>>, 1, 6)
FromIso(s) ==
  LET n == NumsFrom(s, 1, <<>>, <<>>) IN
  <<Dec(n[1]), Dec(n[2]), Dec(n[3]), Dec(n[4]), Dec(n[5]), Dec(n[6]), IF Len(n) > 6 THEN Dec(PadMicros(n[7])) ELSE 0>>
FromHttp(s) ==
  LET n == NumsFrom(s, 1, <<>>, <<>>)
      m == CHOOSE k \in 1..12 : \E i \in 1..(Len(s) - 2) : Slice(s, i, i + 2) = MonthNames[k]
      \* asctime form: the year is last
      asc == Len(n[5]) = 4
      y == IF asc THEN n[5] ELSE n[2]
      year == IF Len(y) # 2 THEN Dec(y) ELSE IF Dec(y) < 69 THEN 2000 + Dec(y) ELSE 1900 + Dec(y)
      k == IF asc THEN 2 ELSE 3
  IN <<year, m, Dec(n[1]), Dec(n[k]), Dec(n[k + 1]), Dec(n[k + 2]), 0>>

PadUp == <<50, 57, 57, 57, 49, 50>>      \* 299912
PadTs(s, pad) == IF Len(s) < Len(pad) THEN s \o Drop(pad, Len(s)) ELSE s
Clamp(n, lo, hi) == Max2(lo, Min2(n, hi))
(* a part of a timestamp: its digits clamped; if it is missing, incomplete or  *)
(* not a number, the latest possible                                            *)
Part(s, a, b, lo, hi) ==
  IF Len(s) >= b /\ IsDec(Slice(s, a, b)) THEN Clamp(Dec(Slice(s, a, b)), lo, hi) ELSE hi
FromTimestamp(s0) ==
  LET s == PadTs(s0, PadUp)
      y == Part(s, 1, 4, 1900, 2999)
      m == Part(s, 5, 6, 1, 12)
  IN <<y, m, Part(s, 7, 8, 1, DaysIn(y, m)), Part(s, 9, 10, 0, 23), Part(s, 11, 12, 0, 59), Part(s, 13, 14, 0, 59), 0>>

(* order *)
RECURSIVE LexLe(_, _, _)
LexLe(a, b, i) == IF i > Len(a) THEN TRUE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLe(a, b, i + 1)
Le(a, b) == LexLe(a, b, 1)
=============================================================================
