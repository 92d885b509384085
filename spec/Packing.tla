------------------------------- MODULE Packing ------------------------------
(* How a backup fills its volumes, what its manifest then says and where a    *)
(* path is to be looked for.                                                  *)
(*                                                                           *)
(* A backup is a sequence of items [p, nb]: paths in path order, each with    *)
(* nb >= 1 blocks.  Its blocks in order are cut into volumes; cuts is the     *)
(* sequence of the numbers of blocks of the volumes.                          *)
(* Path order is the order of the sequences of components: a directory comes  *)
(* before what is in it and that before the directory's next sibling.         *)
EXTENDS ManifestText

RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
Sum(s) == SumTo(s, Len(s))
BlocksOf(items) == [i \in 1..Len(items) |-> items[i].nb]

(* the item and the number (from 0) of block x of all *)
ItemAt(items, x) == CHOOSE i \in 1..Len(items) : SumTo(BlocksOf(items), i - 1) < x /\ x <= SumTo(BlocksOf(items), i)
BlockAt(items, x) == x - SumTo(BlocksOf(items), ItemAt(items, x) - 1) - 1

RootName == B(".")
Written(p) == IF p = <<>> THEN RootName ELSE p
Blank == [ht |-> B("SHA1"), h |-> <<1, 2>>]
(* the volume with blocks a..z *)
VolOf(items, a, z) ==
  LET i == ItemAt(items, a)  j == ItemAt(items, z) IN
  [s |-> Written(items[i].p), sb |-> IF BlockAt(items, a) = 0 THEN None ELSE Some(LimbsOf(BlockAt(items, a))),
   e |-> Written(items[j].p), eb |-> IF BlockAt(items, z) = items[j].nb - 1 THEN None ELSE Some(LimbsOf(BlockAt(items, z))),
   ht |-> Blank.ht, h |-> Blank.h]
Pack(items, cuts) == [v \in 1..Len(cuts) |-> VolOf(items, SumTo(cuts, v - 1) + 1, SumTo(cuts, v))]

(* the truth: the volumes that hold a block of item i *)
Holding(items, cuts, i) ==
  {v \in 1..Len(cuts) : SumTo(cuts, v - 1) < SumTo(BlocksOf(items), i) /\ SumTo(cuts, v) > SumTo(BlocksOf(items), i - 1)}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

(* looking a path up in the manifest *)
Plain(p) == IF p = RootName THEN <<>> ELSE p
Within(v, p) == CmpPaths(Plain(v.s), Plain(p)) <= 0 /\ CmpPaths(Plain(p), Plain(v.e)) <= 0
Candidates(vols, p) == {v \in 1..Len(vols) : Within(vols[v], p)}
FirstOf(vols, p) == LET c == Candidates(vols, p) IN IF c = {} THEN None ELSE Some(MinOf(c))
LastOf(vols, p) == LET c == Candidates(vols, p) IN IF c = {} THEN None ELSE Some(MaxOf(c))
=============================================================================
