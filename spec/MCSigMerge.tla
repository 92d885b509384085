----------------------------- MODULE MCSigMerge -----------------------------
(* All histories of small trees.  A tree maps each present path to the number *)
(* of the backup that last changed it.                                       *)
EXTENDS Text
CONSTANTS N, Order, Shape
PathSet == CASE Shape = 1 -> {B("a"), B("a/b"), B("a.b"), B("a0")}       \* around '/': '.' < '/' < '0'
             [] Shape = 2 -> {B("a"), B("a/b"), B("a-b"), B("a/b/c"), B("a/b-c")}
             [] Shape = 3 -> {B("a b"), B("a"), B("a/a"), B("b"), B("a/a.a")}
ByteLess(p, q) == CmpBytes(p, q) < 0
CompLess(p, q) == CmpPaths(p, q) < 0
MLess(p, q) == IF Order = "bytes" THEN ByteLess(p, q) ELSE CompLess(p, q)
M == INSTANCE SigMerge WITH Less <- MLess

VARIABLES trees, recs, tab
vars == <<trees, recs, tab>>
Parents(p) == {q \in PathSet : q # p /\ StartsWith(p, q) /\ p[Len(q) + 1] = SLASH}
Closed(t) == \A p \in DOMAIN t : \A q \in Parents(p) : q \in DOMAIN t
Root == <<>>
(* what the n-th backup records about going from tree t to tree u *)
Delta(t, u, n) ==
  LET ch == {p \in DOMAIN u : u[p] = n} \cup {p \in DOMAIN t : p \notin DOMAIN u}
      ps == M!Sorted(ch) IN
  [x \in 1..Len(ps) |-> [p |-> ps[x], d |-> ps[x] \notin DOMAIN u, v |-> n]]
Trees(t, n) == UNION {{u \in [D \cup {Root} -> {n} \cup {t[p] : p \in DOMAIN t}] :
                          /\ \A p \in DOMAIN u : u[p] = n \/ (p \in DOMAIN t /\ u[p] = t[p])
                          /\ u[Root] = n} : D \in SUBSET PathSet}
Empty == [p \in {} |-> 0]
Init == trees = <<>> /\ recs = <<>> /\ tab = <<>>
Next == /\ Len(trees) < N
        /\ LET n == Len(trees) + 1
               t == IF trees = <<>> THEN Empty ELSE trees[Len(trees)] IN
           \E u \in Trees(t, n) :
             /\ Closed(u)
             /\ trees' = Append(trees, u)
             /\ recs' = Append(recs, Delta(t, u, n))
             /\ tab' = M!Merge(tab, Delta(t, u, n), n)
Spec == Init /\ [][Next]_vars

TreeListing(t) == LET ps == M!Sorted(DOMAIN t) IN [x \in 1..Len(ps) |-> <<ps[x], t[ps[x]]>>]
Shown(l) == [x \in 1..Len(l) |-> <<l[x].p, l[x].v>>]
(* every snapshot, also the earlier ones, lists exactly its tree *)
Faithful == \A i \in 1..Len(trees) : Shown(M!ListAt(tab, i)) = TreeListing(trees[i])
MeaningFaithful == \A i \in 1..Len(trees) : Shown(M!Latest(recs, i)) = TreeListing(trees[i])
TableOrdered == \A x \in 1..(Len(tab) - 1) : CmpPaths(tab[x].p, tab[x + 1].p) < 0
=============================================================================
