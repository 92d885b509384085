----------------------------- MODULE GenPacking -----------------------------
(* Prints every finished packing. *)
EXTENDS MCPacking, Json
Emit == Done => PrintT("@@" \o ToJson([items |-> packing.items, cuts |-> packing.cuts, all |-> Paths]))
=============================================================================
