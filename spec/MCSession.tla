------------------------------ MODULE MCSession -----------------------------
(* The reader as a machine: a cache per chain of backups and per snapshot,    *)
(* filled on demand, all or nothing.  TLC checks that whatever is requested,  *)
(* in whatever order, and however the backend misbehaves meanwhile, its       *)
(* answers are allowed by Session and have the properties that clients rely   *)
(* on.  Behaviours are also printed as programs of requests for the real      *)
(* code (GenSession).                                                         *)
EXTENDS Session

CONSTANTS Template,     \* which archive
          MaxSteps, Faults, Hs

TM(n) == <<17000, n>>
X1(k, a) == [k |-> k, inc |-> FALSE, t0 |-> TM(a), t1 |-> TM(a), vol |-> <<1>>, part |-> FALSE, sfx |-> <<>>]
X2(k, a, b) == [k |-> k, inc |-> TRUE, t0 |-> TM(a), t1 |-> TM(b), vol |-> <<1>>, part |-> FALSE, sfx |-> <<>>]
Parts ==
  CASE Template = 1 -> {X1("sig", 1), X1("man", 1), X2("sig", 1, 2), X2("man", 1, 2), X1("sig", 4), X1("man", 4)}
    [] Template = 2 -> {X1("sig", 1), X1("man", 1), X2("man", 1, 2), X2("sig", 2, 3), X2("man", 2, 3), X1("man", 4), X1("sig", 5)}
    [] Template = 3 -> {X1("sig", 1), X1("vol", 1), X2("sig", 1, 2), X2("man", 1, 2), X2("sig", 1, 3), X2("vol", 1, 3), X1("sig", 6), X2("sig", 6, 7)}
FileRec(p) == [n |-> Name(p), k |-> p.k, es |-> <<>>, raw |-> Render([host |-> B("h"), dir |-> B("d"), vols |-> <<>>])]
Store == LET RECURSIVE seq(_)
             seq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<FileRec(x)>> \o seq(S \ {x})
         IN seq(Parts)
Arch == Understand(Store)
NS == Len(Arch.snaps)
FileNames == {Store[i].n : i \in {i \in 1..Len(Store) : Store[i].k \in {"sig", "man"}}}

VARIABLES sst,       \* the session as Session sees it
          cache,     \* [c: chains loaded, m: manifests loaded]
          prog,      \* requests so far
          answer     \* the last: [bad: what Session objects to, step, ok, opens]
svars == <<sst, cache, prog, answer>>
NoAnswer == [bad |-> {}, ok |-> TRUE, opens |-> <<>>, i |-> 0, sort |-> "none"]

TheSigChain(x) == CHOOSE s \in Arch.cinfo[x].sigs : TRUE
SigSeq(x) == LET s == TheSigChain(x) IN [j \in 1..Len(s) |-> SigFile(Arch.F, s[j]).name]
Broken(n) == {f \in sst.faults : f.n = n}
FirstBroken(ns) == LET b == {j \in 1..Len(ns) : Broken(ns[j]) # {}} IN
                   IF b = {} THEN 0 ELSE CHOOSE j \in b : \A l \in b : j <= l

Do(step, res, newcache, sort, i) ==
  /\ Len(prog) < MaxSteps
  /\ prog' = Append(prog, step)
  /\ cache' = newcache
  /\ sst' = StepNext(Arch, sst, step, res)
  /\ answer' = [bad |-> StepBad(Arch, sst, step, res), sort |-> sort, i |-> i,
                ok |-> IF "ok" \in DOMAIN res THEN res.ok ELSE TRUE,
                opens |-> IF "opens" \in DOMAIN res THEN res.opens ELSE <<>>]
Empty == [c |-> {}, m |-> {}]
NoOpens == <<>>
(* what becomes of the cache when loading chain c fails; under what a chain and a manifest are kept *)
AfterFailure(c) == cache
KeptAs(c) == c
ManKeptAs(i) == i
(* planted: what failed counts as loaded; everything in one slot; nothing kept *)
KeepsFailed(c) == [cache EXCEPT !.c = @ \cup {c}]
OneSlot(x) == 1
RECURSIVE Fresher(_)
Fresher(x) == IF x \in cache.c THEN Fresher(x + 100) ELSE x

OpenIt == ~sst.open
  /\ IF sst.lf = None THEN Do([s |-> "open"], [ok |-> TRUE, opens |-> NoOpens, lists |-> 1], Empty, "open", 0)
     ELSE Do([s |-> "open"], [ok |-> FALSE, err |-> sst.lf[1], opens |-> NoOpens], Empty, "open", 0)
CloseIt == sst.open /\ prog[Len(prog)].s # "open" /\ Do([s |-> "close"], [ok |-> TRUE], Empty, "close", 0)
Entries(i, h) ==
  /\ sst.open
  /\ LET sn == Arch.snaps[i]
         step == [s |-> "entries", i |-> i - 1, h |-> h]
         No1(e, o) == Do(step, [ok |-> FALSE, err |-> e, opens |-> o], IF e = "NotFound" THEN cache ELSE AfterFailure(sn.c), "entries", i)
         Yes(o) == Do(step, [ok |-> TRUE, opens |-> o], [cache EXCEPT !.c = @ \cup {KeptAs(sn.c)}], "entries", i)
     IN IF ~sn.found THEN No1("NotFound", NoOpens)
        ELSE IF KeptAs(sn.c) \in cache.c THEN Yes(NoOpens)
        ELSE LET ns == SigSeq(sn.c)  b == FirstBroken(ns) IN
             IF b = 0 THEN Yes(ns) ELSE No1((CHOOSE f \in Broken(ns[b]) : TRUE).e, SubSeq(ns, 1, b))
GetManifest(i, h) ==
  /\ sst.open
  /\ LET sn == Arch.snaps[i]
         step == [s |-> "manifest", i |-> i - 1, m |-> h]
         No1(e, o) == Do(step, [ok |-> FALSE, err |-> <<"Io", e>>, opens |-> o], cache, "manifest", i)
         Yes(o) == Do(step, [ok |-> TRUE, opens |-> o], [cache EXCEPT !.m = @ \cup {ManKeptAs(i)}], "manifest", i)
     IN IF sn.mans = {} THEN No1("NotFound", NoOpens)
        ELSE IF ManKeptAs(i) \in cache.m THEN Yes(NoOpens)
        ELSE LET one == CHOOSE x \in sn.mans : TRUE IN
             IF Broken(one) = {} THEN Yes(<<one>>) ELSE No1((CHOOSE f \in Broken(one) : TRUE).e, <<one>>)
Drop(h) == sst.hs[h] # 0 /\ Do([s |-> "drop", h |-> h], [ok |-> TRUE], cache, "drop", 0)
Mdrop(h) == sst.ms[h] # 0 /\ Do([s |-> "mdrop", m |-> h], [ok |-> TRUE], cache, "drop", 0)
(* a file does not open, or breaks off at once *)
Break(x, kind) ==
            /\ Cardinality(sst.faults) < Faults
            /\ Broken(x) = {}
            /\ Do([s |-> "fault", n |-> x, kind |-> kind, e |-> "TimedOut", at |-> 0, sure |-> TRUE], [ok |-> TRUE], cache, "fault", 0)
BreakList == Faults > 0 /\ sst.lf = None /\ ~sst.open /\ Do([s |-> "listfault", e |-> "PermissionDenied"], [ok |-> TRUE], cache, "fault", 0)
Heal == (sst.faults # {} \/ sst.lf # None) /\ Do([s |-> "heal"], [ok |-> TRUE], cache, "heal", 0)
View == <<sst, cache, answer, Len(prog)>>
Init == sst = Fresh /\ cache = Empty /\ prog = <<>> /\ answer = NoAnswer
Next == \/ OpenIt \/ CloseIt \/ Heal \/ BreakList
        \/ \E i \in 1..NS, h \in Hs : Entries(i, h) \/ GetManifest(i, h)
        \/ \E h \in Hs : Drop(h) \/ Mdrop(h)
        \/ \E x \in FileNames : Break(x, "open") \/ Break(x, "read")
Spec == Init /\ [][Next]_svars

(* --------------------------- the properties ------------------------------ *)
(* what the machine answers is allowed *)
Allowed == answer.bad = {}
(* the cache holds what successful requests have read, no more and no less *)
Known == sst.open => /\ \A x \in cache.c : {SigSeq(x)[j] : j \in 1..Len(SigSeq(x))} \subseteq sst.loaded
                     /\ sst.loaded \subseteq FileNames
(* an answer depends on the snapshot asked for and the backend's present state,
   not on what was asked before (apart from what is already there) *)
Independent ==
  (answer.sort = "entries" /\ sst.faults = {}) => answer.ok = Arch.snaps[answer.i].found
Independent2 ==
  (answer.sort = "manifest" /\ sst.faults = {}) => answer.ok = (Arch.snaps[answer.i].mans # {})
(* faults elsewhere do not matter *)
Unharmed == (answer.sort = "entries" /\ Arch.snaps[answer.i].found
             /\ \A f \in sst.faults : f.n \notin Arch.cinfo[Arch.snaps[answer.i].c].own) => answer.ok
(* only requests open files, and a failed one leaves nothing behind *)
Lazy == answer.sort \notin {"entries", "manifest"} => answer.opens = <<>>
NoTrace == [][(answer'.sort \in {"entries", "manifest"} /\ ~answer'.ok) => (sst' = sst /\ cache' = cache)]_svars
(* what is held stays held *)
Held == [][answer'.sort \in {"fault", "heal"} => (sst'.hs = sst.hs /\ sst'.ms = sst.ms)]_svars
=============================================================================
