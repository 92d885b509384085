----------------------------- MODULE TraceSession ---------------------------
(* rec: [id, prop, files, steps, outs]: one archive, one sequence of requests *)
(* and the answers of one or more runs of it (other listing order, backend or *)
(* read size).  Every run is judged; runs must agree apart from what the      *)
(* backend saw.                                                               *)
EXTENDS Session, Lanes

RECURSIVE Walk(_, _, _, _, _)
Walk(A, steps, res, x, st) ==
  IF x > Len(steps) \/ x > Len(res) THEN {}
  ELSE {<<x, b>> : b \in StepBad(A, st, steps[x], res[x])}
       \cup Walk(A, steps, res, x + 1, StepNext(A, st, steps[x], res[x]))

(* the parts of an answer that must not depend on how files are delivered *)
Facts(r) == [f \in DOMAIN r \ {"opens", "lists"} |-> r[f]]
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Facts(a[i]) = Facts(b[i])

(* the encoder keeps to the format: signatures are in path order, no path twice *)
WellFormed(files) ==
  \A i \in 1..Len(files) :
    files[i].k = "sig" => \A j \in 1..(Len(files[i].es) - 1) : CmpPaths(files[i].es[j].p, files[i].es[j + 1].p) < 0
(* a run ends early only when opening failed *)
Complete(rec) == \A o \in 1..Len(rec.outs) :
  Len(rec.outs[o]) = Len(rec.steps)
  \/ LET l == rec.outs[o][Len(rec.outs[o])] IN "panic" \in DOMAIN l \/ ("ok" \in DOMAIN l /\ ~l.ok)

BadOf(rec) ==
  LET A == Understand(rec.files) IN
  IF ~Assert(WellFormed(rec.files), <<"the encoder broke the format", rec.id>>) THEN {}
  ELSE UNION {Walk(A, rec.steps, rec.outs[o], 1, Fresh) : o \in 1..Len(rec.outs)}
       \cup If(\A o \in 2..Len(rec.outs) : Same(rec.outs[1], rec.outs[o]),
              <<0, "the answer depends on how files are delivered">>)
       \cup If(Complete(rec), <<0, "answers are missing">>)
Next == lane <= N /\ Report(Trace[lane], BadOf(Trace[lane])) /\ lane' = lane + NLanes
Spec == LInit /\ [][Next]_lane
=============================================================================
