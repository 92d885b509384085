----------------------------- MODULE MCAssembly -----------------------------
(* A reader meets the names of a listing one by one, in any order, and        *)
(* assembles the sets as it goes.  Whatever the order, what it ends up with   *)
(* is what Collections says about the set of files as a whole.                *)
EXTENDS Collections
CONSTANTS Size,      \* files in a listing
          Pool       \* which pool of files they come from

TA == <<16600, 1>>  TB == <<16600, 2>>  TC == <<16601, 0>>
F1(k, v, part, sfx) == [k |-> k, inc |-> FALSE, t0 |-> TA, t1 |-> TA, vol |-> v, part |-> part, sfx |-> sfx]
I1(k, v, part, sfx, a, b) == [k |-> k, inc |-> TRUE, t0 |-> a, t1 |-> b, vol |-> v, part |-> part, sfx |-> sfx]
Abstract ==
  IF Pool = 1 THEN       \* everything one set may have
    {F1("vol", <<1>>, FALSE, Gz), F1("vol", <<1>>, FALSE, Gpg), F1("vol", <<2>>, FALSE, Gz), F1("vol", <<300>>, FALSE, <<>>),
     F1("man", <<>>, FALSE, <<>>), F1("man", <<>>, TRUE, <<>>), F1("man", <<>>, FALSE, Gpg),
     F1("sig", <<>>, FALSE, Gz), F1("sig", <<>>, TRUE, <<>>), F1("sig", <<>>, FALSE, Gpg)}
  ELSE                   \* several sets, interrupted and redone
    {F1("vol", <<1>>, FALSE, Gz), F1("man", <<>>, FALSE, <<>>), F1("sig", <<>>, FALSE, Gz),
     I1("vol", <<1>>, FALSE, Gz, TA, TB), I1("sig", <<>>, FALSE, Gz, TA, TB),
     I1("vol", <<1>>, FALSE, Gz, TA, TC), I1("man", <<>>, FALSE, <<>>, TA, TC), I1("sig", <<>>, FALSE, Gz, TA, TC),
     I1("man", <<>>, FALSE, <<>>, TB, TC)}
All == {LET r == Parse(Name(x)) IN
        [name |-> Name(x), k |-> r.k, inc |-> r.inc, t0 |-> r.t0, t1 |-> r.t1, vol |-> r.vol, part |-> r.part,
         comp |-> r.comp, enc |-> r.enc] : x \in Abstract}

VARIABLES todo, done, sets
avars == <<todo, done, sets>>
Blank == [man |-> <<>>, manpart |-> TRUE, vols |-> {}, comp |-> FALSE, enc |-> FALSE, partial |-> FALSE]
BetterMan(s, x) == \/ s.man = <<>>
                   \/ s.manpart /\ ~x.part
                   \/ s.manpart = x.part /\ CmpBytes(s.man, x.name) < 0
BetterVol(s, x) == \A v \in s.vols : v[1] = x.vol => CmpBytes(v[2], x.name) < 0
Add(s, x) ==
  [man |-> IF x.k = "man" /\ BetterMan(s, x) THEN x.name ELSE s.man,
   manpart |-> IF x.k = "man" /\ BetterMan(s, x) THEN x.part ELSE s.manpart,
   vols |-> IF x.k = "vol" /\ BetterVol(s, x) THEN {v \in s.vols : v[1] # x.vol} \cup {<<x.vol, x.name>>} ELSE s.vols,
   comp |-> s.comp \/ x.comp, enc |-> s.enc \/ x.enc, partial |-> s.partial \/ (x.k # "vol" /\ x.part)]
Init == done = {} /\ sets = [k \in {} |-> Blank]
        /\ todo \in UNION {{S \in SUBSET All : Cardinality(S) = n} : n \in 1..Size}
Next == \E x \in todo :
          /\ todo' = todo \ {x} /\ done' = done \cup {x}
          /\ sets' = [k \in Keys(done \cup {x}) |->
                        LET old == IF k \in DOMAIN sets THEN sets[k] ELSE Blank IN
                        IF KeyOf(x) = k THEN Add(old, x) ELSE old]
Spec == Init /\ [][Next]_avars
(* what the reader would report about a set *)
Rec(k) == [full |-> ~KInc(k), inc |-> KInc(k), t0 |-> KStart(k), t1 |-> KEnd(k),
           complete |-> sets[k].man # <<>>, man |-> sets[k].man, nvol |-> Cardinality(sets[k].vols),
           vols |-> <<>>, comp |-> sets[k].comp, enc |-> sets[k].enc, partial |-> sets[k].partial]
Asked == <<<<1>>, <<2>>, <<300>>, <<>>>>
WithVols(k) == [Rec(k) EXCEPT !.vols = [i \in 1..4 |-> LET m == {v \in sets[k].vols : v[1] = Asked[i]} IN
                                           IF m = {} THEN None ELSE Some((CHOOSE v \in m : TRUE)[2])]]
Correct == \A k \in Keys(done) : SetOk(WithVols(k), done, k, Asked)
(* the result is a function of the files alone: the order left no trace *)
RECURSIVE AddAll(_, _)
AddAll(s, xs) == IF xs = {} THEN s
                 ELSE LET x == CHOOSE x \in xs : \A y \in xs : CmpBytes(x.name, y.name) <= 0 IN AddAll(Add(s, x), xs \ {x})
Confluent == \A k \in Keys(done) : sets[k] = AddAll(Blank, FilesOf(done, k))
(* planted: the manifest met last counts; the first; no preference among names *)
LastManifest(s, x) == TRUE
FirstManifest(s, x) == s.man = <<>>
WholeOrFirst(s, x) == s.man = <<>> \/ (s.manpart /\ ~x.part)
FirstVolume(s, x) == \A v \in s.vols : v[1] # x.vol
=============================================================================
