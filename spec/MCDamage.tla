------------------------------ MODULE MCDamage ------------------------------
(* What is left of a chain when one of its recordings breaks off: for every   *)
(* history of MCSigMerge, every recording and every place.                    *)
EXTENDS MCSigMerge
CONSTANT Bug           \* "none"; "drop": the reader forgets the whole recording; "stop": and those after it
Broken(d, k) == [recs EXCEPT ![d] = SubSeq(@, 1, k)]
Reads(d, k) == CASE Bug = "none" -> Broken(d, k)
                 [] Bug = "drop" -> [recs EXCEPT ![d] = <<>>]
                 [] Bug = "stop" -> [x \in 1..Len(recs) |-> IF x < d THEN recs[x] ELSE IF x = d THEN Broken(d, k)[d] ELSE <<>>]
Before(l, p) == SelectSeq(l, LAMBDA e : CmpPaths(e.p, p) < 0)
Places == {<<d, k>> : d \in 1..Len(recs), k \in 0..4}
Loses ==
  \A x \in Places : x[2] < Len(recs[x[1]]) =>
    LET d == x[1]  k == x[2]
        left == Reads(d, k)
        at == recs[d][k + 1].p IN
    \A i \in 1..Len(recs) :
      LET have == M!ListAt(M!TableOf(left, Len(left)), i)
          full == M!Latest(recs, i) IN
      (* the reader's table still means what it should *)
      /\ have = M!Latest(Broken(d, k), i)
      (* earlier snapshots are untouched, and so is all that was recorded before the place *)
      /\ i < d => have = full
      /\ Before(have, at) = Before(full, at)
      (* nothing is invented: what is listed was recorded, and where it is not what it
         should be, it is an older recording of the same path *)
      /\ \A e \in 1..Len(have) : ~have[e].d /\ \E s \in 1..i : \E f \in 1..Len(recs[s]) : recs[s][f] = have[e]
      /\ \A e \in 1..Len(have) : \A f \in 1..Len(full) : have[e].p = full[f].p => have[e].v <= full[f].v
=============================================================================
