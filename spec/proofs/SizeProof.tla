------------------------------ MODULE SizeProof ------------------------------
(* The bounds of C15 hold for files and blocks of any size: a file is signed   *)
(* byte by byte; a signature of n blocks of blk bytes bounds its size by       *)
(* (n - 1) * blk + 1 and n * blk, and no closer bounds are possible.           *)
EXTENDS Integers, TLAPS
VARIABLES blk, size, blocks, last      \* last: bytes in the last block
vars == <<blk, size, blocks, last>>
Init == blk \in Nat \ {0} /\ size = 0 /\ blocks = 0 /\ last = 0
Next == /\ size' = size + 1 /\ blk' = blk
        /\ IF blocks = 0 \/ last = blk THEN blocks' = blocks + 1 /\ last' = 1
           ELSE blocks' = blocks /\ last' = last + 1
Spec == Init /\ [][Next]_vars
Min == IF blocks = 0 THEN 0 ELSE (blocks - 1) * blk + 1
Max == blocks * blk
Inv == /\ blk \in Nat \ {0} /\ size \in Nat /\ blocks \in Nat /\ last \in 0..blk
       /\ blocks = 0 => size = 0
       /\ blocks > 0 => last > 0 /\ size = (blocks - 1) * blk + last
Encloses == Min <= size /\ size <= Max /\ Max - Min <= blk

LEMMA First == Init => Inv
  BY DEF Init, Inv
LEMMA Step == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv' OBVIOUS
<1>1. CASE UNCHANGED vars BY <1>1 DEF vars, Inv
<1>2. CASE Next /\ blocks = 0 BY <1>2 DEF Next, Inv
<1>3. CASE Next /\ blocks > 0 /\ last = blk
  <2>1. size' = (blocks - 1) * blk + blk + 1 BY <1>3 DEF Next, Inv
  <2>2. (blocks - 1) * blk + blk = blocks * blk BY <1>3 DEF Inv
  <2> QED BY <1>3, <2>1, <2>2 DEF Next, Inv
<1>4. CASE Next /\ blocks > 0 /\ last # blk BY <1>4 DEF Next, Inv
<1> QED BY <1>1, <1>2, <1>3, <1>4 DEF Inv
LEMMA Bounds == Inv => Encloses
<1> SUFFICES ASSUME Inv PROVE Encloses OBVIOUS
<1>1. CASE blocks = 0 BY <1>1 DEF Inv, Encloses, Min, Max
<1>2. CASE blocks > 0
  <2> DEFINE m == (blocks - 1) * blk
             x == blocks * blk
  <2>1. x = m + blk BY <1>2 DEF Inv
  <2>2. m \in Int /\ x \in Int BY <1>2 DEF Inv
  <2>3. size = m + last /\ last \in 1..blk /\ blk \in Nat BY <1>2 DEF Inv
  <2>4. Min = m + 1 /\ Max = x BY <1>2 DEF Inv, Min, Max
  <2> HIDE DEF m, x
  <2> QED BY <2>1, <2>2, <2>3, <2>4 DEF Encloses
<1> QED BY <1>1, <1>2 DEF Inv
THEOREM Spec => []Encloses
  BY First, Step, Bounds, PTL DEF Spec
=============================================================================
