----------------------------- MODULE ChainRule -----------------------------
(* How backup sets (and in the same way signature files) make chains.         *)
(* A key <<inc, t0, t1>> names a set; a chain is a sequence of keys.  (No     *)
(* more than this is needed to prove what proofs/ChainProof proves of it.)    *)
EXTENDS Instants, Sequences

KInc(k) == k[1]
KStart(k) == k[2]
KEnd(k) == k[3]
Last(s) == s[Len(s)]

(* k is appended to chain c, or replaces its last member *)
Appends(c, k) == KEnd(Last(c)) = KStart(k)
Replaces(c, k) == ~Appends(c, k) /\ Len(c) > 1 /\ KInc(Last(c)) /\ KStart(Last(c)) = KStart(k)
                  /\ TLess(KEnd(Last(c)), KEnd(k))
Place(c, k) == IF Appends(c, k) THEN Append(c, k)
               ELSE IF Replaces(c, k) THEN Append(SubSeq(c, 1, Len(c) - 1), k)
               ELSE c
AddSet(cs, k) ==
  IF ~KInc(k) THEN Append(cs, <<k>>)
  ELSE IF \E i \in 1..Len(cs) : Place(cs[i], k) # cs[i]
       THEN LET i == CHOOSE i \in 1..Len(cs) : Place(cs[i], k) # cs[i] /\ \A j \in 1..(i-1) : Place(cs[j], k) = cs[j]
            IN [cs EXCEPT ![i] = Place(@, k)]
       ELSE cs                                   \* an orphan: left out
=============================================================================
