------------------------------ MODULE GenSession ----------------------------
(* Behaviours of the reading machine as programs of requests.                 *)
EXTENDS MCSession, Json
CONSTANTS Every
Emit == IF Len(prog) = MaxSteps /\ sst.open /\ RandomElement(1..Every) = 1
        THEN PrintT("@@" \o ToJson([files |-> [x \in 1..Len(Store) |-> [n |-> Store[x].n, k |-> Store[x].k]], prog |-> prog]))
        ELSE TRUE
=============================================================================
