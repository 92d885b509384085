------------------------------ MODULE TraceTime -----------------------------
(* rec: [id, zone, parse, parsed, show, shown, now]: texts and what they were *)
(* read as; at the time now, instants <<c, d, s>> (c cycles of 400 years, d  *)
(* days, s seconds from 1970) and how they were shown in UTC and local time.  *)
EXTENDS Zones, Lanes
If(ok, what) == IF ok THEN {} ELSE {what}
Upper(b) == b # Lower(b)
ParseBad(b, r) ==
  IF Upper(b) THEN If(r = None \/ r = ParseStamp(Lower(b)), "wrong instant")     \* letter case is the caller's business
  ELSE IF ParseStamp(b) = None THEN If(r = None, "a malformed timestamp is accepted")
  ELSE If(r = ParseStamp(b), IF r = None THEN "a timestamp is rejected" ELSE "wrong instant")
ShowBad(z, x, r, utcYear, localYear) ==
  If(r.utc = ShowFar(x[1], <<x[2], x[3]>>, 0, utcYear), "shown in UTC")
  \cup If(r.local = ShowFar(x[1], <<x[2], x[3]>>, OffsetAt(z, <<x[2], x[3]>>), localYear), "shown in local time")
BadOf(rec) ==
  LET uy == YearAt(rec.now, 0)  ly == ThisYear(rec.now, rec.zone) IN
  If(Len(rec.parse) = Len(rec.parsed) /\ Len(rec.show) = Len(rec.shown), <<"answers are missing", 0>>)
  \cup UNION {{<<x, i>> : x \in ParseBad(rec.parse[i], rec.parsed[i])} : i \in 1..Len(rec.parse)}
  \cup UNION {{<<x, i>> : x \in ShowBad(rec.zone, rec.show[i], rec.shown[i], uy, ly)} : i \in 1..Len(rec.show)}
Next == lane <= N /\ Report(Trace[lane], BadOf(Trace[lane])) /\ lane' = lane + NLanes
Spec == LInit /\ [][Next]_lane
=============================================================================
