----------------------------- MODULE MCArchive ------------------------------
(* Archive, and mistakes a reader may make: each replaces a definition of the *)
(* specification and has to be refuted.                                       *)
EXTENDS Archive
(* an attempt that was redone stays *)
NeverReplaces(c, k) == FALSE
(* an incremental backup goes to the end of a chain that began before it *)
LateAppends(c, k) == TLeq(KEnd(Last(c)), KStart(k))
(* chains in the order in which they began *)
AsTheyBegan(F) == RawChains(F)
(* what has no chain begins one *)
OrphansToo(cs, k) ==
  IF \E i \in 1..Len(cs) : Place(cs[i], k) # cs[i]
  THEN LET i == CHOOSE i \in 1..Len(cs) : Place(cs[i], k) # cs[i] /\ \A j \in 1..(i-1) : Place(cs[j], k) = cs[j]
       IN [cs EXCEPT ![i] = Place(@, k)]
  ELSE Append(cs, <<k>>)
(* the signature of a snapshot found by its place in the chain *)
ByPlace(k) == LET x == CHOOSE x \in 1..Len(Chains) : k \in RangeOf(Chains[x])
                  y == CHOOSE y \in 1..Len(Chains[x]) : Chains[x][y] = k
              IN IF x <= Len(SigChains) /\ y <= Len(SigChains[x]) THEN {<<x, y>>} ELSE {}
(* in the right chain, but at its place *)
ByPlaceInChain(k) == LET c == CHOOSE c \in RangeOf(Chains) : k \in RangeOf(c)
                         y == CHOOSE y \in 1..Len(c) : c[y] = k
                     IN {<<x, y>> : x \in {x \in 1..Len(SigChains) : ChainStart(SigChains[x]) = ChainStart(c) /\ y <= Len(SigChains[x])}}
(* the last signature of the chain that is not later *)
NotLater(k) == LET c == CHOOSE c \in RangeOf(Chains) : k \in RangeOf(c)
                   Of(x) == {y \in 1..Len(SigChains[x]) : TLeq(KEnd(SigChains[x][y]), KEnd(k))}
               IN UNION {{<<x, y>> : y \in {y \in Of(x) : \A z \in Of(x) : z <= y}} : x \in {x \in 1..Len(SigChains) : ChainStart(SigChains[x]) = ChainStart(c)}}
=============================================================================
