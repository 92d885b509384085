------------------------------- MODULE MCCivil ------------------------------
(* The calendar: a successor for every day, one day per date, and timestamps  *)
(* and zones consistent with it.                                              *)
EXTENDS Zones
CONSTANTS Lo, Hi                 \* days, counted from 720000 days before 1970
VARIABLES today
cvars == <<today>>
Base == 720000
Init == today \in (Lo - Base)..(Lo - Base + 63)
Next == today + 64 <= Hi - Base /\ today' = today + 64
Spec == Init /\ [][Next]_cvars
Succ(c) == IF c.d < MonthLen(c.y, c.m) THEN [c EXCEPT !.d = @ + 1]
           ELSE IF c.m < 12 THEN [c EXCEPT !.m = @ + 1, !.d = 1]
           ELSE [y |-> c.y + 1, m |-> 1, d |-> 1]
Anchor == CivilOf(0) = [y |-> 1970, m |-> 1, d |-> 1]
Successor == CivilOf(today + 1) = Succ(CivilOf(today))
Inverse == LET c == CivilOf(today) IN DayOf(c.y, c.m, c.d) = today
Stamped == LET c == CivilOf(today)  t == <<today, ((today % 86400) * 7919) % 86400>> IN
           (c.y >= 0 /\ c.y <= 9999) => ParseStamp(Lower(StampText(t))) = Some(t)
(* no such day *)
Rejected == LET c == CivilOf(today)
                Text3(y, m, d) == Pad4(y) \o Pad2(m) \o Pad2(d) \o <<LowT>> \o B("000000") \o <<LowZ>> IN
  (c.y >= 0 /\ c.y <= 9999 /\ c.d = MonthLen(c.y, c.m)) => \A x \in {0} \cup (c.d + 1)..99 : ParseStamp(Text3(c.y, c.m, x)) = None
NewYork == [std |-> -18000, dst |-> -14400, from |-> <<3, 2, 0, 7200>>, to |-> <<11, 1, 0, 7200>>]
South == [std |-> 36000, dst |-> 39600, from |-> <<10, 1, 0, 7200>>, to |-> <<4, 1, 0, 10800>>]
(* exactly on the days of the rules the offset changes *)
Changes(z) ==
  LET c == CivilOf(today)
      offs == {OffsetAt(z, Shift(<<today, 0>>, h * 1800 - z.std)) : h \in 0..47}
  IN (Cardinality(offs) = 2) <=> today \in {RuleDay(c.y, z.from), RuleDay(c.y, z.to)}
Zoned == today % 10 = 0 \/ CivilOf(today).m \in {3, 4, 10, 11} => Changes(NewYork) /\ Changes(South)
(* what has just happened is shown with the hour, the same time a year ago is *)
(* not, and one year has as many such days as it is long                      *)
Clocked(b) == \E x \in 1..Len(b) : b[x] = 58
Moments == {<<today, s>> : s \in {0, 10800, 43200, 79200, 86399}}
JustNow == \A z \in {NewYork, South} : \A t \in Moments :
  /\ Clocked(ShowIn(z, t, t))
  /\ ~Clocked(ShowIn(z, <<t[1] - 366, t[2]>>, t))
  /\ Clocked(ShowIn(z, <<t[1] - 1, t[2]>>, t)) = (YearAt(<<t[1] - 1, t[2]>>, OffsetAt(z, <<t[1] - 1, t[2]>>)) = YearAt(t, OffsetAt(z, t)))
(* planted: every fourth year; *)
Julian(y) == y % 4 = 0
(* planted: the year in Greenwich *)
Greenwich(now, z) == YearAt(now, 0)
(* planted: summer time everywhere *)
Northern(z, t) == LET c == CivilOf(t[1]) IN IF c.m \in 4..10 THEN z.dst ELSE z.std
=============================================================================
