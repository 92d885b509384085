-------------------------------- MODULE Zones -------------------------------
(* Time zones as POSIX describes them: a standard offset and possibly a       *)
(* summer offset between two rules <<month, week, weekday, second>> (week 5:  *)
(* the last), given in the local time in force before the change.             *)
(* A zone is [std, dst, from, to]; without summer time dst = std and the      *)
(* rules are <<>>.                                                            *)
EXTENDS Civil
WeekDay(day) == (day + 4) % 7                     \* 1970-01-01 was a Thursday
RuleDay(y, r) ==
  LET first == DayOf(y, r[1], 1)
      d1 == first + ((r[3] - WeekDay(first)) % 7)
      last == first + MonthLen(y, r[1]) - 1
      d == d1 + 7 * (r[2] - 1)
  IN IF d > last THEN d - 7 ELSE d
(* the instant of a change in year y, off being in force before *)
Change(y, r, off) == Shift(<<RuleDay(y, r), r[4]>>, 0 - off)
OffsetAt(z, t) ==
  IF z.dst = z.std THEN z.std
  ELSE LET y == CivilOf(Shift(t, z.std)[1]).y
           a == Change(y, z.from, z.std)
           b == Change(y, z.to, z.dst)
       IN IF TLess(a, b) THEN IF TLeq(a, t) /\ TLess(t, b) THEN z.dst ELSE z.std
          ELSE IF TLeq(b, t) /\ TLess(t, a) THEN z.std ELSE z.dst
(* the current year in a zone *)
ThisYear(now, z) == YearAt(now, OffsetAt(z, now))
ShowIn(z, t, now) == ShowTime(t, OffsetAt(z, t), ThisYear(now, z))
=============================================================================
