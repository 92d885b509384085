------------------------------ MODULE IterProof ------------------------------
(* Enumerations of any length in machine words of any size (C17): an           *)
(* implementation whose position and whose additions end at the largest word   *)
(* agrees with module Iter, which counts with all numbers, whatever steps are  *)
(* taken and however far they skip.                                            *)
EXTENDS IterRule, Integers, TLAPS
CONSTANTS items, Word
ASSUME Sizes == items \in Seq(Nat) /\ Word \in Nat /\ Len(items) <= Word
VARIABLES at,       \* position of the enumeration, as module Iter has it
          pos,      \* position of the implementation
          gave,     \* what the last step gives according to Iter, and
          got       \* according to the implementation
vars == <<at, pos, gave, got>>
N == Len(items)
Init == at = 0 /\ pos = 0 /\ gave = <<>> /\ got = <<>>
(* skip k things and give the next; k is any word *)
Nth(k) == LET id == Upto(pos + k, Word)
              o == Op(items, at, <<"nth", k>>) IN
  /\ at' = o.p /\ gave' = o.r
  /\ IF id < N THEN pos' = id + 1 /\ got' = <<items[id + 1]>> ELSE pos' = N /\ got' = <<>>
Step1 == LET o == Op(items, at, <<"next">>) IN
  /\ at' = o.p /\ gave' = o.r
  /\ IF pos < N THEN pos' = pos + 1 /\ got' = <<items[pos + 1]>> ELSE pos' = pos /\ got' = <<>>
Length == LET o == Op(items, at, <<"len">>) IN
  at' = o.p /\ gave' = o.r /\ pos' = pos /\ got' = <<N - pos>>
Reset == LET o == Op(items, at, <<"reset">>) IN
  at' = o.p /\ gave' = o.r /\ pos' = 0 /\ got' = <<>>
Next == Step1 \/ Length \/ Reset \/ \E k \in 0..Word : Nth(k)
Spec == Init /\ [][Next]_vars
Inv == /\ at \in 0..N /\ pos = at /\ got = gave

LEMMA NthOp == \A p, k : Op(items, p, <<"nth", k>>) = [r |-> One(items, Upto(p + k, N)), p |-> Upto(p + k + 1, N)]
  BY DEF Op, N
LEMMA NextOp == \A p : Op(items, p, <<"next">>) = [r |-> One(items, p), p |-> Upto(p + 1, N)]
  BY DEF Op, N
LEMMA LenOp == \A p : Op(items, p, <<"len">>) = [r |-> <<N - p>>, p |-> p]
  BY DEF Op, N
LEMMA ResetOp == \A p : Op(items, p, <<"reset">>) = [r |-> <<>>, p |-> 0]
  BY DEF Op, N
LEMMA NNat == N \in Nat /\ N <= Word /\ Word \in Nat BY Sizes DEF N

THEOREM Spec => []Inv
<1>1. Init => Inv BY NNat DEF Init, Inv
<1>2. Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv' OBVIOUS
  <2>0. N' = N BY DEF N
  <2>1. CASE UNCHANGED vars BY <2>1, <2>0 DEF vars, Inv
  <2>2. ASSUME NEW k \in 0..Word, Nth(k) PROVE Inv'
    <3>1. at' = Upto(at + k + 1, N) /\ gave' = One(items, Upto(at + k, N)) BY <2>2, NthOp DEF Nth
    <3>2. at \in 0..N /\ pos = at /\ k \in Nat BY NNat DEF Inv
    <3>3. CASE at + k < N
      <4>1. Upto(pos + k, Word) = at + k BY <3>2, <3>3, NNat DEF Upto
      <4>2. pos' = at + k + 1 /\ got' = <<items[at + k + 1]>> BY <2>2, <3>3, <4>1 DEF Nth
      <4>3. at' = at + k + 1 /\ Upto(at + k, N) = at + k BY <3>1, <3>2, <3>3, NNat DEF Upto
      <4>4. gave' = <<items[at + k + 1]>> BY <3>1, <4>3, <3>3 DEF One, N
      <4> QED BY <4>2, <4>3, <4>4, <3>2, <3>3, <2>0, NNat DEF Inv
    <3>4. CASE ~(at + k < N)
      <4>1. ~(Upto(pos + k, Word) < N) BY <3>2, <3>4, NNat DEF Upto
      <4>2. pos' = N /\ got' = <<>> BY <2>2, <4>1 DEF Nth
      <4>3. at' = N /\ Upto(at + k, N) = N BY <3>1, <3>2, <3>4, NNat DEF Upto
      <4>4. gave' = <<>> BY <3>1, <4>3, NNat DEF One, N
      <4> QED BY <4>2, <4>3, <4>4, <2>0, NNat DEF Inv
    <3> QED BY <3>3, <3>4
  <2>3. CASE Step1
    <3>1. at' = Upto(at + 1, N) /\ gave' = One(items, at) BY <2>3, NextOp DEF Step1
    <3>2. at \in 0..N /\ pos = at BY DEF Inv
    <3> QED BY <2>3, <3>1, <3>2, <2>0, NNat DEF Step1, Inv, Upto, One, N
  <2>4. CASE Length BY <2>4, <2>0, LenOp DEF Length, Inv
  <2>5. CASE Reset BY <2>5, <2>0, ResetOp, NNat DEF Reset, Inv
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5 DEF Next
<1> QED BY <1>1, <1>2, PTL DEF Spec
=============================================================================
