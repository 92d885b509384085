----------------------------- MODULE GenAssembly ----------------------------
(* Every listing MCAssembly starts from, as a conformance case.              *)
EXTENDS MCAssembly, Json
Emit == IF done = {} THEN PrintT("@@" \o ToJson([ns |-> {x.name : x \in todo}])) ELSE TRUE
GSpec == Init /\ [][FALSE]_avars
=============================================================================
