------------------------------ MODULE IterRule ------------------------------
(* Enumerations: what every kind of step of an enumeration of the things      *)
(* items gives, and where it leaves the enumeration.  pos is the number of    *)
(* things that have been given out or skipped.  Past the end it stays there.  *)
EXTENDS Naturals, Sequences

Max0(a, b) == IF a >= b THEN a - b ELSE 0
Upto(a, b) == IF a <= b THEN a ELSE b
One(items, p) == IF p < Len(items) THEN <<items[p + 1]>> ELSE <<>>
From0(items, p) == SubSeq(items, p + 1, Len(items))
(* every k-th of the rest, from the next on *)
Strided(items, p, k) == LET n == Len(items) IN
  [x \in 1..(IF n > p THEN (n - p - 1) \div k + 1 ELSE 0) |-> items[p + (x - 1) * k + 1]]

(* an operation is <<name>> or <<name, k>>; gives [r |-> answer, p |-> pos] *)
Op(items, p, op) ==
  LET n == Len(items) IN
  CASE op[1] = "next" -> [r |-> One(items, p), p |-> Upto(p + 1, n)]
    [] op[1] = "nth" -> [r |-> One(items, Upto(p + op[2], n)), p |-> Upto(p + op[2] + 1, n)]
    [] op[1] = "skip" -> [r |-> One(items, Upto(p + op[2], n)), p |-> Upto(p + op[2] + 1, n)]
    [] op[1] = "len" -> [r |-> <<n - p>>, p |-> p]
    [] op[1] = "ziplen" -> [r |-> <<n>>, p |-> p]
    [] op[1] = "rest" -> [r |-> From0(items, p), p |-> n]
    [] op[1] = "stepby" -> [r |-> Strided(items, p, op[2]), p |-> n]
    [] op[1] = "take" -> [r |-> SubSeq(items, p + 1, Upto(p + op[2], n)), p |-> Upto(p + op[2], n)]
    [] op[1] = "fork" -> [r |-> From0(items, p), p |-> p]
    (* these use the enumeration up; the next operation starts a new one *)
    [] op[1] = "count" -> [r |-> <<n - p>>, p |-> 0]
    [] op[1] = "last" -> [r |-> IF p < n THEN <<items[n]>> ELSE <<>>, p |-> 0]
    [] op[1] = "collect" -> [r |-> From0(items, p), p |-> 0]
    [] op[1] = "reset" -> [r |-> <<>>, p |-> 0]
    [] op[1] = "hint" -> [r |-> <<>>, p |-> p]
(* bounds: [lower, option of upper] *)
HintOk(n, p, r) == r[1] <= n - p /\ (r[2] # <<>> => r[2][1] >= n - p)
OpOk(items, p, op, r) == IF op[1] = "hint" THEN HintOk(Len(items), p, r) ELSE r = Op(items, p, op).r

=============================================================================
