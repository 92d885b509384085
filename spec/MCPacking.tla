------------------------------ MODULE MCPacking -----------------------------
(* Every way in which small trees are packed into volumes.                    *)
EXTENDS Packing
CONSTANTS Trees, MaxItems, MaxBlocks, MaxVols
(* path-ordered trees with names around the separator ('-' and '!' and ' ' sort
   before '/', '0' after it) *)
A == 97
TreeSet ==
  CASE Trees = 1 -> <<<<>>, B("a"), B("a/b"), B("a-b"), B("a0")>>
    [] Trees = 2 -> <<<<>>, B("a"), B("a/b"), B("a/b/c"), B("a b"), B("ab")>>
    [] Trees = 3 -> <<B("."), B("a"), B("a/0"), B("a!"), B("b")>>
    [] Trees = 4 -> <<<<>>, <<1>>, <<A>>, <<A, 47, A>>, <<A, 1>>, <<A, 255>>, <<255>>>>
Paths == IF Trees = 3 THEN Tail(TreeSet) ELSE TreeSet
ASSUME \A i \in 1..(Len(Paths) - 1) : CmpPaths(Plain(Paths[i]), Plain(Paths[i + 1])) < 0
VARIABLES packing
pvars == <<packing>>
(* a backup takes some of the paths, in their order, and is cut as it is filled *)
Init == packing = [items |-> <<>>, cuts |-> <<>>, next |-> 1, used |-> 0]
Stored == Sum(BlocksOf(packing.items))
Put == /\ Len(packing.items) < MaxItems
       /\ \E i \in packing.next..Len(Paths), nb \in 1..MaxBlocks :
            packing' = [packing EXCEPT !.items = Append(@, [p |-> Paths[i], nb |-> nb]), !.next = i + 1]
(* the volume is closed after k more of the blocks there are *)
Cut == /\ Len(packing.cuts) < MaxVols /\ packing.used < Stored
       /\ \E k \in 1..(Stored - packing.used) : packing' = [packing EXCEPT !.cuts = Append(@, k), !.used = @ + k]
Next == Put \/ Cut
Spec == Init /\ [][Next]_pvars
Done == Stored > 0 /\ packing.used = Stored
Vols == Pack(packing.items, packing.cuts)
TypeOK == Sum(packing.cuts) <= Stored
(* the ranges of a manifest decide exactly where a path is *)
Found == Done => \A i \in 1..Len(packing.items) :
  LET h == Holding(packing.items, packing.cuts, i)  p == packing.items[i].p IN
  /\ FirstOf(Vols, p) = Some(MinOf(h)) /\ LastOf(Vols, p) = Some(MaxOf(h))
  /\ h = MinOf(h)..MaxOf(h)
(* paths elsewhere in the order are in no range *)
Outside == Done => \A i \in 1..Len(Paths) :
  (\A v \in 1..Len(Vols) : CmpPaths(Paths[i], Plain(Vols[v].s)) < 0 \/ CmpPaths(Paths[i], Plain(Vols[v].e)) > 0)
     => FirstOf(Vols, Paths[i]) = None /\ LastOf(Vols, Paths[i]) = None
(* volumes follow one another *)
Ordered == Done => \A v \in 1..(Len(Vols) - 1) : CmpPaths(Plain(Vols[v].e), Plain(Vols[v + 1].s)) <= 0
(* planted: paths compared as bytes *)
AsBytes(v, p) == CmpBytes(Plain(v.s), Plain(p)) <= 0 /\ CmpBytes(Plain(p), Plain(v.e)) <= 0
(* planted: a volume that begins with a later block of the path taken for its first *)
StartsIn(v, p) == CmpPaths(Plain(v.s), Plain(p)) < 0 /\ CmpPaths(Plain(p), Plain(v.e)) <= 0
EndsIn(v, p) == CmpPaths(Plain(v.s), Plain(p)) <= 0 /\ CmpPaths(Plain(p), Plain(v.e)) < 0
=============================================================================
