------------------------------- MODULE MCIter -------------------------------
(* The enumerations as machines.  Snapshots of a signature chain: an index,   *)
(* with skipping.  Snapshots of an archive: two nested enumerations and two   *)
(* counters.  TLC checks that each gives the plain sequence, whatever steps   *)
(* are mixed, and that a snapshot carries the right chain and manifest number *)
EXTENDS Iter
CONSTANTS MaxChains, MaxLen, MaxSkip, MaxOps, Bugs
(* an archive: lengths of its chains *)
Shapes == UNION {[1..c -> 1..MaxLen] : c \in 0..MaxChains}
FlatOf(sh) == LET RECURSIVE f(_)
                  f(c) == IF c > Len(sh) THEN <<>> ELSE [j \in 1..sh[c] |-> <<c, j>>] \o f(c + 1)
              IN f(1)

VARIABLES shape, nest, idx, apos, seen
ivars == <<shape, nest, idx, apos, seen>>
Items == FlatOf(shape)
(* the chain enumeration stands before chain c + 1; the inner one, if any,
   belongs to chain c and has given j sets *)
Fresh0 == [c |-> 0, inner |-> FALSE, j |-> 0, chain |-> 0, man |-> 0]

(* one step of the nested machine: [r |-> option of <<item, chain number, manifest number>>, s |-> state] *)
NestNext(s) ==
  IF s.inner /\ s.j < shape[s.c]
  THEN [r |-> <<[it |-> <<s.c, s.j + 1>>, ch |-> s.chain - 1, mn |-> s.man]>>,
        s |-> [s EXCEPT !.j = @ + 1, !.man = @ + 1]]
  ELSE IF s.c < Len(shape)
  THEN [r |-> <<[it |-> <<s.c + 1, 1>>, ch |-> s.chain, mn |-> s.man]>>,
        s |-> [c |-> s.c + 1, inner |-> TRUE, j |-> 1, chain |-> s.chain + 1,
               man |-> IF "slot" \in Bugs THEN s.chain + 1 ELSE s.man + 1]]
  ELSE [r |-> <<>>, s |-> s]
RECURSIVE NestNth(_, _)
NestNth(s, k) == LET x == NestNext(s) IN
  IF k = 0 \/ x.r = <<>> THEN x ELSE NestNth(x.s, k - 1)
(* the index machine over n things *)
IdxNth(n, i, k) == IF i + k < n THEN [r |-> <<i + k>>, s |-> i + k + 1]
                   ELSE [r |-> <<>>, s |-> IF "stay" \in Bugs THEN i ELSE n]

Init == /\ shape \in Shapes /\ nest = Fresh0 /\ idx = 0 /\ apos = 0
        /\ seen = [ok |-> TRUE, n |-> 0]
Step(k) ==
  LET a == Op(Items, apos, <<"nth", k>>)
      x == NestNth(nest, k)
      i == IdxNth(Len(Items), idx, k) IN
  /\ seen.n < MaxOps
  /\ nest' = x.s /\ idx' = i.s /\ apos' = a.p
  /\ seen' = [n |-> seen.n + 1,
              ok |-> /\ (x.r = <<>>) = (a.r = <<>>) /\ (i.r = <<>>) = (a.r = <<>>)
                     /\ (a.r # <<>> => /\ x.r[1].it = a.r[1]
                                       /\ Items[i.r[1] + 1] = a.r[1]
                                       /\ x.r[1].ch = a.r[1][1] - 1            \* its own chain's cache
                                       /\ x.r[1].mn = i.r[1])]                 \* and its own manifest's
  /\ UNCHANGED shape
Restart == /\ seen.n < MaxOps /\ nest' = Fresh0 /\ idx' = 0 /\ apos' = 0
           /\ seen' = [seen EXCEPT !.n = @ + 1] /\ UNCHANGED shape
Next == (\E k \in 0..MaxSkip : Step(k)) \/ Restart
Spec == Init /\ [][Next]_ivars
Agree == seen.ok
InStep == idx = apos /\ nest.man = apos
(* the steps are one and the same thing said differently *)
Laws == LET n == Len(Items) IN
  /\ Op(Items, apos, <<"rest">>).r = Op(Items, apos, <<"stepby", 1>>).r
  /\ \A k \in 0..MaxSkip : /\ Op(Items, apos, <<"take", k>>).r \o From0(Items, Op(Items, apos, <<"take", k>>).p)
                              = Op(Items, apos, <<"rest">>).r
                           /\ Op(Items, apos, <<"nth", k>>).r = One(From0(Items, apos), k)
  /\ \A k \in 1..MaxSkip + 1 : Len(Op(Items, apos, <<"stepby", k>>).r) * k >= n - apos
=============================================================================
