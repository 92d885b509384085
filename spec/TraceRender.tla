----------------------------- MODULE TraceRender ----------------------------
(* rec: like TraceSession, with zone and now.  Texts are judged by what the  *)
(* accessors said of the same things, those by what was recorded.  A rec may  *)
(* also just be about entry types: [id, types].                               *)
EXTENDS Session, Render, Lanes

LinesBad(t, want, what) == If(t.l = want /\ t.nl, what)
EntriesText(es, z, now) == Table([x \in 1..Len(es) |-> Cells(es[x], z, now)])
ListingBad(step, res, z, now) ==
  LET rows == TLCEval([x \in 1..Len(res.e) |-> Cells(res.e[x], z, now)])
      k == IF "k" \in DOMAIN step THEN step.k ELSE 0 IN
  LinesBad(res.text, Table(rows), "the text of a listing")
  \cup LinesBad(res.text2, Table(rows), "the text of a listing's entries")
  \cup LinesBad(res.rest, Table(SubSeq(rows, k + 1, Len(rows))), "the text of what is left of a listing")
  \cup If(res.rows = [x \in 1..Len(rows) |-> Tabbed(rows[x])], "the text of an entry")
CollTextBad(res, z, now) ==
  UNION {LinesBad(res.chains[x].text, ChainLines(res.chains[x], z, now), "the text of a chain") : x \in 1..Len(res.chains)}
  \cup LinesBad(res.text, Flat([x \in 1..Len(res.chains) |-> ChainLines(res.chains[x], z, now)]), "the text of the collections")
  \cup UNION {UNION {If(s.row = SetRow(s, z, now), "the text of a set") : s \in RangeS(SetsOf(res.chains[x]))} : x \in 1..Len(res.chains)}
  \cup If(Len(res.sigtext) = Len(res.sigs) /\ \A x \in 1..Len(res.sigs) : LinesBad(res.sigtext[x], SigLines(res.sigs[x], z, now), "") = {},
          "the text of a signature chain")
TextBad(step, res, z, now) ==
  IF Crashed(res) THEN {}
  ELSE IF step.s = "text" /\ "e" \in DOMAIN res THEN ListingBad(step, res, z, now)
  ELSE IF step.s = "coll" /\ "text" \in DOMAIN res THEN CollTextBad(res, z, now)
  ELSE IF step.s = "sigtext" /\ "snaps" \in DOMAIN res
       THEN UNION {LinesBad(res.snaps[y].text, EntriesText(res.snaps[y].e, z, now), "the text of a snapshot") : y \in 1..Len(res.snaps)}
  ELSE {}
RECURSIVE WalkR(_, _, _, _, _, _)
WalkR(A, rec, res, x, st, year) ==
  IF x > Len(rec.steps) \/ x > Len(res) THEN {}
  ELSE {<<x, b>> : b \in StepBad(A, st, rec.steps[x], res[x]) \cup TextBad(rec.steps[x], res[x], rec.zone, year)}
       \cup WalkR(A, rec, res, x + 1, StepNext(A, st, rec.steps[x], res[x]), year)
TypesBad(ts) == UNION {If(ts[x].ty = TypeOf(ts[x].b) /\ ts[x].d = TypeChar(TypeOf(ts[x].b)), <<ts[x].b, "entry type">>) : x \in 1..Len(ts)}
BadOf(rec) ==
  IF "types" \in DOMAIN rec THEN TypesBad(rec.types)
  ELSE WalkR(Understand(rec.files), rec, rec.outs[1], 1, Fresh, ThisYear(rec.now, rec.zone))
       \cup If(Len(rec.outs[1]) = Len(rec.steps), "answers are missing")
Next == lane <= N /\ Report(Trace[lane], BadOf(Trace[lane])) /\ lane' = lane + NLanes
Spec == LInit /\ [][Next]_lane
=============================================================================
