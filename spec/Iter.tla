-------------------------------- MODULE Iter --------------------------------
(* Whole programs of steps of an enumeration (the steps are those of          *)
(* IterRule, of which proofs/IterProof speaks).                               *)
EXTENDS IterRule, TLC

RECURSIVE OpsBad(_, _, _, _, _)
OpsBad(items, p, ops, rs, x) ==
  IF x > Len(ops) THEN {}
  ELSE IF x > Len(rs) THEN {<<x, "no answer">>}
  ELSE (IF OpOk(items, p, ops[x], rs[x]) THEN {} ELSE {<<x, "an enumeration goes wrong">>})
       \cup OpsBad(items, Op(items, p, ops[x]).p, ops, rs, x + 1)
=============================================================================
