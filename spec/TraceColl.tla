------------------------------ MODULE TraceColl -----------------------------
(* rec: [id, prop, names, q, outs]: one listing and the answers for one or   *)
(* more orders of it.                                                        *)
EXTENDS CollCheck, Lanes

Bad(rec) ==
  LET P == Parsed(rec.names)
      F == FilesIn(P)
      o == rec.outs[1] IN
  If(\A i \in 2..Len(rec.outs) : rec.outs[i] = o, "the answer depends on the order of the listing")
  \cup (IF Unclear(P) \/ rec.prop = "C04" THEN {}
        ELSE CASE rec.prop = "C03" -> Structure(F, o)
               [] rec.prop = "C06" -> Structure(F, o) \cup Contents(F, o, rec.q)
               [] rec.prop = "C02" -> SigSane(F, o)
               [] OTHER -> Structure(F, o) \cup Contents(F, o, rec.q) \cup Signatures(F, o))
Next == lane <= N /\ Report(Trace[lane], Bad(Trace[lane])) /\ lane' = lane + NLanes
Spec == LInit /\ [][Next]_lane
=============================================================================
