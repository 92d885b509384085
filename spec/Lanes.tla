-------------------------------- MODULE Lanes -------------------------------
(* Walks a file of recorded cases in parallel lanes.  A trace module extends *)
(* this and defines Check(rec), which prints what disagrees and is TRUE.     *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
NLanes == 8
(* (the name of a variable must not be used for anything else in any module:
   TLC would not precompute constants that contain it) *)
VARIABLES lane
LInit == lane \in 1..NLanes
Report(rec, bad) == IF bad = {} THEN TRUE
                    ELSE PrintT("@@" \o ToJson([id |-> rec.id, bad |-> bad]))
=============================================================================
