------------------------------ MODULE TraceLocal ----------------------------
(* The local backend as a view of a directory: rec.fs is what is at the given *)
(* path: [k |-> "dir", fs |-> sequence of [n, k, data]], "file" or "none".    *)
(* An entry of a directory is a file, a subdirectory or a dangling link.      *)
EXTENDS Text, Lanes

If(ok, what) == IF ok THEN {} ELSE {what}
(* the same names, each as often *)
SameNames(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) :
  Cardinality({j \in 1..Len(a) : a[j] = a[i]}) = Cardinality({j \in 1..Len(b) : b[j] = a[i]})
ErrOf(x) == IF x.k = "file" THEN "NotADirectory" ELSE "NotFound"
ListBad(x, l) ==
  IF x.k = "dir" THEN If(l.ok, "the directory is not listed")
                      \cup (IF l.ok THEN If(SameNames([i \in 1..Len(x.fs) |-> x.fs[i].n], l.names), "other names are listed") ELSE {})
  ELSE If(~l.ok /\ l.err = ErrOf(x), "an unreadable directory is not reported")
Named(x, n) == {i \in 1..Len(x.fs) : x.fs[i].n = n}
OpenBad(x, n, r) ==
  IF x.k # "dir" THEN If(~r.ok /\ ~r.late /\ r.err = ErrOf(x), "a file opens in no directory")
  ELSE IF Named(x, n) = {} THEN If(~r.ok /\ ~r.late /\ r.err = "NotFound", "a missing file is not reported")
  ELSE LET f == x.fs[CHOOSE i \in Named(x, n) : TRUE] IN
       CASE f.k = "file" -> If(r.ok /\ r.data = f.data, "the file has other contents")
         [] f.k = "gone" -> If(~r.ok /\ ~r.late /\ r.err = "NotFound", "a dangling link is not reported")
         [] OTHER -> If(~r.ok, "a directory is read like a file")
BadOf(rec) ==
  ListBad(rec.fs, rec.list)
  \cup UNION {OpenBad(rec.fs, rec.names[i], rec.open[i]) : i \in 1..Len(rec.names)}
  \cup If(Len(rec.open) = Len(rec.names), "answers are missing")
  \cup (IF rec.fs.k = "dir" THEN If(rec.backup.ok, "no backup on a readable directory")
        ELSE If(~rec.backup.ok /\ rec.backup.err = ErrOf(rec.fs), "opening a backup hides the error of the listing"))
Next == lane <= N /\ Report(Trace[lane], BadOf(Trace[lane])) /\ lane' = lane + NLanes
Spec == LInit /\ [][Next]_lane
=============================================================================
