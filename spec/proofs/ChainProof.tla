------------------------------ MODULE ChainProof -----------------------------
(* Chains of any length, of any number of backups (C03): whatever sets are     *)
(* added in whatever order, by the rules of module Collections, each chain     *)
(* stays a contiguous series that starts with a full backup.                   *)
EXTENDS ChainRule, NaturalsInduction, TLAPS
Time == Int \X Int
Key == BOOLEAN \X Time \X Time
Contiguous(c) == /\ c \in Seq(Key) /\ Len(c) > 0 /\ ~KInc(c[1])
                 /\ \A j \in 2..Len(c) : KInc(c[j]) /\ KStart(c[j]) = KEnd(c[j - 1])
VARIABLE cs          \* the chains
Init == cs = <<>>
Next == \E k \in Key : cs' = AddSet(cs, k)
Spec == Init /\ [][Next]_cs
Inv == cs \in Seq(Seq(Key)) /\ \A i \in 1..Len(cs) : Contiguous(cs[i])

LEMMA Added == ASSUME NEW c, NEW k \in Key, Contiguous(c), KInc(k), Appends(c, k)
               PROVE Contiguous(Append(c, k))
<1> DEFINE d == Append(c, k)
<1>1. d \in Seq(Key) /\ Len(d) = Len(c) + 1 /\ Len(c) \in Nat /\ c \in Seq(Key) BY DEF Contiguous
<1>2. \A j \in 1..Len(c) : d[j] = c[j] BY <1>1
<1>3. d[Len(d)] = k BY <1>1
<1>4. ASSUME NEW j \in 2..Len(d) PROVE KInc(d[j]) /\ KStart(d[j]) = KEnd(d[j - 1])
  <2>1. CASE j = Len(d) 
    <3>1. d[j - 1] = c[Len(c)] BY <2>1, <1>1, <1>2, <1>4 DEF Contiguous
    <3> QED BY <2>1, <3>1, <1>3 DEF Appends, Last
  <2>2. CASE j < Len(d)
    <3>1. j \in 2..Len(c) /\ j - 1 \in 1..Len(c) BY <2>2, <1>1, <1>4
    <3>2. d[j] = c[j] /\ d[j - 1] = c[j - 1] BY <3>1, <1>2
    <3> QED BY <3>1, <3>2 DEF Contiguous
  <2> QED BY <2>1, <2>2, <1>1
<1>5. ~KInc(d[1]) BY <1>1, <1>2 DEF Contiguous
<1> HIDE DEF d
<1> QED BY <1>1, <1>4, <1>5 DEF Contiguous, d

LEMMA Cut == ASSUME NEW c, Contiguous(c), Len(c) > 1 
             PROVE Contiguous(SubSeq(c, 1, Len(c) - 1)) /\ KEnd(Last(SubSeq(c, 1, Len(c) - 1))) = KStart(Last(c))
<1> DEFINE d == SubSeq(c, 1, Len(c) - 1)
<1>1. d \in Seq(Key) /\ Len(d) = Len(c) - 1 /\ Len(c) \in Nat /\ c \in Seq(Key) BY DEF Contiguous
<1>2. \A j \in 1..Len(d) : d[j] = c[j] BY <1>1
<1>3. ~KInc(d[1]) BY <1>1, <1>2 DEF Contiguous
<1>4. ASSUME NEW j \in 2..Len(d) PROVE KInc(d[j]) /\ KStart(d[j]) = KEnd(d[j - 1])
  <2>1. j \in 2..Len(c) /\ j \in 1..Len(d) /\ j - 1 \in 1..Len(d) BY <1>1, <1>4
  <2> QED BY <2>1, <1>2 DEF Contiguous
<1>5. KEnd(d[Len(d)]) = KStart(c[Len(c)])
  <2>1. d[Len(d)] = c[Len(c) - 1] BY <1>1, <1>2
  <2>2. Len(c) \in 2..Len(c) BY <1>1
  <2> QED BY <2>1, <2>2 DEF Contiguous
<1> HIDE DEF d
<1>6. Contiguous(d) BY <1>1, <1>3, <1>4 DEF Contiguous
<1> QED BY <1>5, <1>6 DEF d, Last

LEMMA Placed == ASSUME NEW c, NEW k \in Key, Contiguous(c), KInc(k) PROVE Contiguous(Place(c, k))
<1>1. CASE Appends(c, k) BY <1>1, Added DEF Place
<1>2. CASE ~Appends(c, k) /\ Replaces(c, k)
  <2> DEFINE d == SubSeq(c, 1, Len(c) - 1)
  <2>1. Contiguous(d) /\ KEnd(Last(d)) = KStart(k) BY <1>2, Cut DEF Replaces
  <2> HIDE DEF d
  <2>2. Contiguous(Append(d, k)) BY <2>1, Added DEF Appends
  <2> QED BY <1>2, <2>2 DEF Place, d
<1>3. CASE ~Appends(c, k) /\ ~Replaces(c, k) BY <1>3 DEF Place
<1> QED BY <1>1, <1>2, <1>3

THEOREM Spec => []Inv
<1>1. Init => Inv BY DEF Init, Inv
<1>2. Inv /\ [Next]_cs => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_cs PROVE Inv' OBVIOUS
  <2>1. CASE UNCHANGED cs BY <2>1 DEF Inv
  <2>2. ASSUME NEW k \in Key, ~KInc(k), cs' = AddSet(cs, k) PROVE Inv'
    <3>0. cs' = Append(cs, <<k>>) BY <2>2 DEF AddSet
    <3>1. Contiguous(<<k>>) BY <2>2 DEF Contiguous
    <3>2. cs' \in Seq(Seq(Key)) /\ Len(cs') = Len(cs) + 1 BY <3>0 DEF Inv
    <3>3. \A i \in 1..Len(cs) : cs'[i] = cs[i] BY <3>0 DEF Inv
    <3>4. cs'[Len(cs) + 1] = <<k>> BY <3>0 DEF Inv
    <3> QED BY <3>1, <3>2, <3>3, <3>4 DEF Inv
  <2>3. ASSUME NEW k \in Key, KInc(k), cs' = AddSet(cs, k) PROVE Inv'
    <3>0. CASE cs' = cs BY <3>0 DEF Inv
    <3>1. ASSUME NEW i \in 1..Len(cs), cs' = [cs EXCEPT ![i] = Place(@, k)] PROVE Inv'
      <4>2. Contiguous(Place(cs[i], k)) BY <2>3, Placed DEF Inv
      <4>3. Place(cs[i], k) \in Seq(Key) BY <4>2 DEF Contiguous
      <4>4. cs' \in Seq(Seq(Key)) /\ Len(cs') = Len(cs) BY <3>1, <4>3 DEF Inv
      <4>5. \A j \in 1..Len(cs) : cs'[j] = IF j = i THEN Place(cs[i], k) ELSE cs[j] BY <3>1 DEF Inv
      <4> QED BY <4>2, <4>4, <4>5 DEF Inv
    <3>2. CASE \E i \in 1..Len(cs) : Place(cs[i], k) # cs[i]
      <4> DEFINE P(i) == Place(cs[i], k) # cs[i] /\ \A j \in 1..(i-1) : Place(cs[j], k) = cs[j]
                 c == CHOOSE i \in 1..Len(cs) : P(i)
      <4>1. \E i \in 1..Len(cs) : P(i)
        <5> DEFINE Q(n) == n \in 1..Len(cs) /\ Place(cs[n], k) # cs[n]
        <5>1. \E n \in Nat : Q(n) BY <3>2
        <5> HIDE DEF Q
        <5>2. \E n \in Nat : Q(n) /\ \A m \in 0..(n - 1) : ~Q(m) BY <5>1, SmallestNatural
        <5>3. PICK n \in Nat : Q(n) /\ \A m \in 0..(n - 1) : ~Q(m) BY <5>2
        <5>4. Len(cs) \in Nat BY DEF Inv
        <5>5. n \in 1..Len(cs) /\ Place(cs[n], k) # cs[n] BY <5>3 DEF Q
        <5>6. \A j \in 1..(n - 1) : Place(cs[j], k) = cs[j] BY <5>3, <5>4, <5>5 DEF Q
        <5> QED BY <5>5, <5>6
      <4>2. c \in 1..Len(cs) BY <4>1
      <4>3. cs' = [cs EXCEPT ![c] = Place(@, k)] BY <2>3, <3>2 DEF AddSet
      <4> QED BY <4>2, <4>3, <3>1
    <3>3. CASE ~\E i \in 1..Len(cs) : Place(cs[i], k) # cs[i] BY <2>3, <3>3, <3>0 DEF AddSet
    <3> QED BY <3>2, <3>3
  <2> QED BY <2>1, <2>2, <2>3 DEF Next, KInc, Key
<1> QED BY <1>1, <1>2, PTL DEF Spec
=============================================================================
