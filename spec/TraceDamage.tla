----------------------------- MODULE TraceDamage ----------------------------
(* Archives with damaged signature files.  rec: [id, files, dmg, weak, steps, *)
(* outs].  files: what was recorded.  dmg: the damaged files: [n, lo, hi,     *)
(* soft]: at least the first lo entries come wholly before the damage, hi is  *)
(* the number of entries that can possibly still be there; soft: of the last  *)
(* of them the header may be there without what its size needs.  weak:  *)
(* names of files that hold anything at all.                                  *)
EXTENDS Session, Lanes

(* what a damaged file may still give: entries recorded before the damage,
   possibly more, never anything else *)
Cut(es, k) == SubSeq(es, 1, k)
Dull(es, k) == [Cut(es, k) EXCEPT ![k].sz = [k |-> "bad"]]
Remains(es, x) == {Cut(es, k) : k \in x.lo..x.hi}
                  \cup (IF x.soft THEN {Dull(es, k) : k \in (x.lo + 1)..x.hi} ELSE {})
FileNo(files, n) == CHOOSE i \in 1..Len(files) : files[i].n = n

WeakSnap(A, weak, i) == i # 0 /\ A.cinfo[A.snaps[i].c].own \cap weak # {}
Excused(A, weak, st, step) ==
  step.s \in {"dump", "list", "iter", "text"} /\ "h" \in DOMAIN step /\ WeakSnap(A, weak, st.hs[step.h])
RECURSIVE WalkD(_, _, _, _, _, _)
WalkD(A, weak, steps, res, x, st) ==
  IF x > Len(steps) \/ x > Len(res) THEN {}
  ELSE {<<x, b>> : b \in IF Excused(A, weak, st, steps[x]) /\ ~Crashed(res[x]) THEN {} ELSE StepBad(A, st, steps[x], res[x])}
       \cup WalkD(A, weak, steps, res, x + 1, StepNext(A, st, steps[x], res[x]))

(* some choice of what remains of every damaged file explains all answers *)
RECURSIVE Explained(_, _, _)
Explained(rec, files, d) ==
  IF d > Len(rec.dmg) THEN WalkD(Understand(files), RangeS(rec.weak), rec.steps, rec.outs[1], 1, Fresh) = {}
  ELSE LET f == FileNo(files, rec.dmg[d].n) IN
       \E es \in Remains(files[f].es, rec.dmg[d]) : Explained(rec, [files EXCEPT ![f].es = es], d + 1)
AnyCrash(rec) == \E x \in 1..Len(rec.outs[1]) : Crashed(rec.outs[1][x])
BadOf(rec) ==
  If(Len(rec.outs[1]) = Len(rec.steps), "answers are missing")
  \cup (IF AnyCrash(rec) THEN {"panic"}
        ELSE IF Explained(rec, rec.files, 1) THEN {}
        ELSE {<<"not what was recorded before the damage",
               WalkD(Understand(rec.files), RangeS(rec.weak), rec.steps, rec.outs[1], 1, Fresh)>>})
Next == lane <= N /\ Report(Trace[lane], BadOf(Trace[lane])) /\ lane' = lane + NLanes
Spec == LInit /\ [][Next]_lane
=============================================================================
