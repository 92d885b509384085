------------------------------ MODULE SigMerge ------------------------------
(* A signature chain: the writer records what each backup changed, the       *)
(* reader merges the recordings into one table per path and answers which    *)
(* paths exist at snapshot i.  Two definitions of the reader:                *)
(*   Merge/ListAt   one pass over the ordered table per recording, the way   *)
(*                  the implementation does it                               *)
(*   Latest         the meaning: for each path the last recording at or      *)
(*                  before i decides                                         *)
(* The model checks that both give the tree that was backed up.              *)
EXTENDS Text

SeqX == INSTANCE SequencesExt

(* ---- the meaning.  recs: sequence (one per backup) of sequences of entries
   [d |-> deleted?, p |-> path, ...] ---------------------------------------- *)
PathsOf(recs, i) == {recs[s][e].p : <<s, e>> \in UNION {{<<s, e>> : e \in 1..Len(recs[s])} : s \in 1..i}}
(* the last recording of path p in backups 1..i *)
RECURSIVE LastOf(_, _, _)
LastOf(recs, i, p) ==
  IF i = 0 THEN None
  ELSE LET es == {e \in 1..Len(recs[i]) : recs[i][e].p = p} IN
       IF es = {} THEN LastOf(recs, i - 1, p)
       ELSE Some(recs[i][CHOOSE e \in es : \A f \in es : f <= e])
Alive(recs, i) == {p \in PathsOf(recs, i) : ~LastOf(recs, i, p)[1].d}
Sorted(P) == SeqX!SetToSortSeq(P, LAMBDA p, q : CmpPaths(p, q) < 0)
Latest(recs, i) == LET ps == Sorted(Alive(recs, i)) IN
                   [x \in 1..Len(ps) |-> LastOf(recs, i, ps[x])[1]]

(* ---- the implementation's way: a table of <<path, <<recordings>>>> ------- *)
CONSTANT Less(_, _)        \* the order in which the merge walks the table
RECURSIVE Skip(_, _, _)
(* the cursor after dropping the table's paths that come before p *)
Skip(tab, cur, p) == IF cur <= Len(tab) /\ Less(tab[cur].p, p) THEN Skip(tab, cur + 1, p) ELSE cur
RECURSIVE MergeAt(_, _, _, _, _, _)
MergeAt(tab, new, rec, e, cur, idx) ==
  IF e > Len(rec) THEN [tab |-> tab, new |-> new]
  ELSE LET c == Skip(tab, cur, rec[e].p)
           s == [i |-> idx, e |-> rec[e]] IN
       IF c <= Len(tab) /\ tab[c].p = rec[e].p
       THEN MergeAt([tab EXCEPT ![c].s = Append(@, s)], new, rec, e + 1, c + 1, idx)
       ELSE MergeAt(tab, Append(new, [p |-> rec[e].p, s |-> <<s>>]), rec, e + 1, c, idx)
Merge(tab, rec, idx) ==
  LET r == MergeAt(tab, <<>>, rec, 1, 1, idx) IN
  SortSeq(r.tab \o r.new, LAMBDA a, b : CmpPaths(a.p, b.p) < 0)
RECURSIVE TableOf(_, _)
TableOf(recs, n) == IF n = 0 THEN <<>> ELSE Merge(TableOf(recs, n - 1), recs[n], n)

RECURSIVE InForce(_, _, _)
InForce(s, x, i) == IF x = 0 THEN None ELSE IF s[x].i <= i THEN Some(s[x].e) ELSE InForce(s, x - 1, i)
RECURSIVE ListFrom(_, _, _)
ListFrom(tab, x, i) ==
  IF x > Len(tab) THEN <<>>
  ELSE LET f == InForce(tab[x].s, Len(tab[x].s), i) IN
       (IF f # None /\ ~f[1].d THEN <<f[1]>> ELSE <<>>) \o ListFrom(tab, x + 1, i)
ListAt(tab, i) == ListFrom(tab, 1, i)
=============================================================================
