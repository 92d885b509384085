----------------------------- MODULE GenSigMerge ----------------------------
(* Histories of MCSigMerge as conformance cases: TLC -simulate walks it and   *)
(* prints what each backup of a complete history records.                     *)
EXTENDS MCSigMerge, Json
Emit == IF Len(recs) = N THEN PrintT("@@" \o ToJson([recs |-> recs])) ELSE TRUE
=============================================================================
