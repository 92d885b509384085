------------------------------- MODULE GenIter ------------------------------
(* Every program of Depth enumeration steps, with what they must answer being *)
(* judged later (TraceSession): the steps that differ for Size things.        *)
EXTENDS Iter, Json
CONSTANTS Size, Depth
VARIABLES at, prog
Menu == {<<"next">>, <<"len">>, <<"hint">>, <<"rest">>, <<"count">>, <<"last">>, <<"collect">>}
        \cup {<<"nth", k>> : k \in 0..Size + 1} \cup {<<"skip", k>> : k \in 1..Size}
        \cup {<<"take", k>> : k \in 0..Size + 1} \cup {<<"stepby", k>> : k \in 1..Size + 1}
Init == at = 0 /\ prog = <<>>
Next == Len(prog) < Depth /\ \E o \in Menu : prog' = Append(prog, o) /\ at' = Op([i \in 1..Size |-> i], at, o).p
Spec == Init /\ [][Next]_<<at, prog>>
Inside == at \in 0..Size
Emit == IF Len(prog) = Depth THEN PrintT("@@" \o ToJson([ops |-> prog])) ELSE TRUE
=============================================================================
