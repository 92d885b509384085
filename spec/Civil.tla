-------------------------------- MODULE Civil -------------------------------
(* Instants are <<day, second of day>>, day 0 being 1970-01-01 UTC.           *)
(* Duplicity timestamps and the two display forms.                           *)
EXTENDS Text, Instants

TCmp(a, b) == IF a = b THEN 0 ELSE IF TLess(a, b) THEN -1 ELSE 1

IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == CASE m \in {4, 6, 9, 11} -> 30
                    [] m = 2 -> IF IsLeap(y) THEN 29 ELSE 28
                    [] OTHER -> 31
CumDays == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
(* days before 1 January of year y, counted from 0001-01-01 *)
DaysBeforeYear(y) == (y - 1) * 365 + (y - 1) \div 4 - (y - 1) \div 100 + (y - 1) \div 400
EpochDays == DaysBeforeYear(1970)
DayOf(y, m, d) == DaysBeforeYear(y) + CumDays[m] + (IF m > 2 /\ IsLeap(y) THEN 1 ELSE 0) + (d - 1) - EpochDays

YearOf(day) ==
  LET n == day + EpochDays
      g == (n * 1) \div 366 + 1                    \* never too large
      RECURSIVE up(_)
      up(y) == IF DaysBeforeYear(y + 1) <= n THEN up(y + 1) ELSE y
      (* a closer first guess: 146097 days are 400 years *)
      q == (n \div 146097) * 400 + ((n % 146097) \div 366) + 1
  IN up(q)
CivilOf(day) ==
  LET y == YearOf(day)
      doy == day + EpochDays - DaysBeforeYear(y)
      Before(m) == CumDays[m] + (IF m > 2 /\ IsLeap(y) THEN 1 ELSE 0)
      m == CHOOSE m \in 1..12 : Before(m) <= doy /\ (m = 12 \/ Before(m + 1) > doy)
  IN [y |-> y, m |-> m, d |-> doy - Before(m) + 1]

(* ----------------------------- timestamps ------------------------------- *)
LowT == 116  LowZ == 122
StampText(t) ==
  LET c == CivilOf(t[1]) IN
  Pad4(c.y) \o Pad2(c.m) \o Pad2(c.d) \o <<84>>
  \o Pad2(t[2] \div 3600) \o Pad2((t[2] \div 60) % 60) \o Pad2(t[2] % 60) \o <<90>>

(* b[i..i+15] is a timestamp in lower case; if so, its instant *)
StampShape(b, i) ==
  /\ i + 15 <= Len(b)
  /\ \A k \in {0,1,2,3,4,5,6,7,9,10,11,12,13,14} : IsDigit(b[i + k])
  /\ b[i + 8] = LowT /\ b[i + 15] = LowZ
StampAt(b, i) ==
  IF ~StampShape(b, i) THEN None
  ELSE LET y == NatOf(b, i, i + 3)  m == NatOf(b, i + 4, i + 5)  d == NatOf(b, i + 6, i + 7)
           h == NatOf(b, i + 9, i + 10)  mi == NatOf(b, i + 11, i + 12)  s == NatOf(b, i + 13, i + 14)
       IN IF m \in 1..12 /\ d >= 1 /\ d <= MonthLen(y, m) /\ h <= 23 /\ mi <= 59 /\ s <= 59
          THEN Some(<<DayOf(y, m, d), h * 3600 + mi * 60 + s>>) ELSE None
ParseStamp(b) == IF Len(b) = 16 THEN StampAt(b, 1) ELSE None

(* ------------------------------- display -------------------------------- *)
MonthName == <<B("Jan"), B("Feb"), B("Mar"), B("Apr"), B("May"), B("Jun"),
               B("Jul"), B("Aug"), B("Sep"), B("Oct"), B("Nov"), B("Dec")>>
Shift(t, off) == LET s == t[2] + off IN <<t[1] + (s \div 86400), s % 86400>>
(* The instant t as someone off seconds east of UTC sees it; at that moment   *)
(* the current year, there, is thisYear.                                      *)
YearAt(t, off) == CivilOf(Shift(t, off)[1]).y
YearText(y) == IF y < 0 THEN <<45>> \o Dec(0 - y) ELSE Dec(y)
(* cycles of 400 years away from t *)
ShowFar(cycles, t, off, thisYear) ==
  LET u == Shift(t, off)  c == CivilOf(u[1])  y == cycles * 400 + c.y IN
  MonthName[c.m] \o <<SP>> \o Pad2(c.d) \o <<SP>>
  \o (IF y = thisYear THEN Pad2(u[2] \div 3600) \o <<58>> \o Pad2((u[2] \div 60) % 60)
      ELSE <<SP>> \o YearText(y))
ShowTime(t, off, thisYear) == ShowFar(0, t, off, thisYear)
=============================================================================
