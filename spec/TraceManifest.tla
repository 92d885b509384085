---------------------------- MODULE TraceManifest ---------------------------
(* rec: [id, raw, m, items, cuts, q, runs]: a manifest file's bytes, options  *)
(* for the manifest they were rendered from and for the packing it describes, *)
(* paths looked up, and what reading gave, once per way of delivering it.     *)
EXTENDS Packing, Lanes
If(ok, what) == IF ok THEN {} ELSE {what}

(* (paths which no writer gives, such as absolute ones, are in no order)      *)
Regular(p) == p = RootName \/ p = <<>> \/ \A i \in 1..Len(Split(p, SLASH)) : Split(p, SLASH)[i] \notin {<<>>, B("."), B("..")}
Bounded(vols) == \A i \in 1..Len(vols) : Regular(vols[i].s) /\ Regular(vols[i].e)

LookBad(rec, vols, look) ==
  LET items == IF rec.items = None THEN <<>> ELSE rec.items[1]
      cuts == IF rec.cuts = None THEN <<>> ELSE rec.cuts[1] IN
  If(Len(look) = Len(rec.q), "lookups are missing")
  \cup UNION {
    LET p == Plain(rec.q[x])
        at == {i \in 1..Len(items) : Plain(items[i].p) = p}
        range == Candidates(vols, rec.q[x]) IN
    IF at # {} THEN
      LET h == Holding(items, cuts, CHOOSE i \in at : TRUE) IN
      If(look[x].first = Some(MinOf(h)), "first volume of a path") \cup If(look[x].last = Some(MaxOf(h)), "last volume of a path")
    ELSE IF range = {} /\ Regular(rec.q[x]) /\ Bounded(vols) THEN If(look[x].first = None /\ look[x].last = None, "a volume of a path outside all of them")
    ELSE {} : x \in 1..Min2(Len(look), Len(rec.q))}
Facts(run) == [f \in DOMAIN run \ {"look"} |-> run[f]]
RunBad(rec, r, run) ==
  (IF Admits(r, run) THEN {}
   ELSE {CASE r.k = "ok" -> IF run.ok THEN "the manifest differs from what was written" ELSE "a good manifest is refused"
           [] r.k = "err" -> IF run.ok THEN "a bad manifest is accepted" ELSE "the error does not name the defect"
           [] OTHER -> "a volume is lost"})
  \cup (IF run.ok /\ r.k = "ok" THEN LookBad(rec, r.m.vols, run.look) ELSE {})
BadOf(rec) ==
  LET r == Read(rec.raw) IN
  (* the encoder writes what the specification writes *)
  IF ~Assert(rec.m # None => rec.raw = Render(rec.m[1]), <<"the encoder broke the format", rec.id>>)
     \/ ~Assert(rec.m # None => r.k = "ok" /\ r.m = rec.m[1], <<"the specification does not read what it writes", rec.id>>)
     \/ ~Assert(rec.items # None => rec.m # None /\ LET v == Pack(rec.items[1], rec.cuts[1]) IN
                  /\ Len(v) = Len(rec.m[1].vols)
                  /\ \A i \in 1..Len(v) : /\ v[i].s = rec.m[1].vols[i].s /\ v[i].sb = rec.m[1].vols[i].sb
                                          /\ v[i].e = rec.m[1].vols[i].e /\ v[i].eb = rec.m[1].vols[i].eb,
                <<"the encoder packed otherwise", rec.id>>)
  THEN {}
  ELSE UNION {RunBad(rec, r, rec.runs[i]) : i \in 1..Len(rec.runs)}
       \cup If(\A i \in 2..Len(rec.runs) : rec.runs[i] = rec.runs[1], "the manifest depends on how it is delivered")
Next == lane <= N /\ Report(Trace[lane], BadOf(Trace[lane])) /\ lane' = lane + NLanes
Spec == LInit /\ [][Next]_lane
=============================================================================
