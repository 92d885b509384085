------------------------------- MODULE Archive ------------------------------
(* The writer's side: how duplicity fills an archive.  Every reachable state *)
(* is an archive a reader may be pointed at, because the writer may stop at  *)
(* any moment.  One action per file operation of the writer:                 *)
(*                                                                           *)
(*   StartFull / StartInc   a backup begins (nothing uploaded yet)           *)
(*   Upload                 its next file: volumes, signature, manifest; or, *)
(*                          in a cache directory, sigtar.part, manifest.part,*)
(*                          and then the final names                         *)
(*   Crash                  it stops for good, its files stay                *)
(*   RemoveOld              retention removes every chain but the newest     *)
(*   Lose                   one file disappears                              *)
(*                                                                           *)
(* The next backup is made from the latest complete backup whose ancestors   *)
(* are complete, which is how leftovers get superseded.                      *)
EXTENDS Collections

CONSTANTS MaxBackups,   \* backups started in a behaviour
          MaxVols,      \* volumes of one backup
          MaxLoss,      \* files lost
          Cache         \* TRUE: a cache directory (signatures and manifests only)

VARIABLES files,  \* set of abstract files
          log,    \* sequence of backups: [inc, t0, t1, p, nvol, up, st]
          lost    \* how many files were lost
vars == <<files, log, lost>>

T(n) == <<17000 + n, 7 * n>>
Now == Len(log)

File(b, k, v, part) == [k |-> k, inc |-> b.inc, t0 |-> b.t0, t1 |-> b.t1,
                        vol |-> LimbsOf(v), part |-> part]
BKey(b) == <<b.inc, b.t0, b.t1>>
Uploads(b) == IF Cache THEN 4 ELSE b.nvol + 2

(* the archive after the n-th file operation of backup b *)
After(b, n, fs) ==
  IF Cache THEN
    CASE n = 1 -> fs \cup {File(b, "sig", 0, TRUE)}
      [] n = 2 -> fs \cup {File(b, "man", 0, TRUE)}
      [] n = 3 -> (fs \ {File(b, "sig", 0, TRUE)}) \cup {File(b, "sig", 0, FALSE)}
      [] n = 4 -> (fs \ {File(b, "man", 0, TRUE)}) \cup {File(b, "man", 0, FALSE)}
  ELSE
    fs \cup {IF n <= b.nvol THEN File(b, "vol", n, FALSE)
             ELSE IF n = b.nvol + 1 THEN File(b, "sig", 0, FALSE)
             ELSE File(b, "man", 0, FALSE)}

(* ------------------------- the true history ----------------------------- *)
RECURSIVE Ancestry(_)
Ancestry(i) == IF i = 0 THEN <<>> ELSE Append(Ancestry(log[i].p), i)
Idx(k) == CHOOSE i \in 1..Len(log) : BKey(log[i]) = k
Root(i) == Ancestry(i)[1]

Usable(i) == \A x \in {Ancestry(i)[j] : j \in 1..Len(Ancestry(i))} :
               /\ log[x].st = "done"
               /\ File(log[x], "sig", 0, FALSE) \in files
               /\ File(log[x], "man", 0, FALSE) \in files
UsableSet == {i \in 1..Len(log) : Usable(i)}
Latest == CHOOSE i \in UsableSet : \A j \in UsableSet : j <= i

Idle == IF log = <<>> THEN TRUE ELSE log[Len(log)].st # "run"

Init == files = {} /\ log = <<>> /\ lost = 0

Start(inc, p, nv) ==
  /\ Idle /\ Len(log) < MaxBackups
  /\ log' = Append(log, [inc |-> inc, t0 |-> IF inc THEN log[p].t1 ELSE T(Now + 1), t1 |-> T(Now + 1),
                         p |-> p, nvol |-> nv, up |-> 0, st |-> "run"])
  /\ UNCHANGED <<files, lost>>
StartFull == \E nv \in 1..MaxVols : Start(FALSE, 0, nv)
StartInc == UsableSet # {} /\ \E nv \in 1..MaxVols : Start(TRUE, Latest, nv)
Upload ==
  /\ ~Idle
  /\ LET i == Len(log)  b == log[i]  n == b.up + 1 IN
       /\ files' = After(b, n, files)
       /\ log' = [log EXCEPT ![i].up = n, ![i].st = IF n = Uploads(b) THEN "done" ELSE "run"]
  /\ UNCHANGED lost
Crash ==
  /\ ~Idle
  /\ log' = [log EXCEPT ![Len(log)].st = "crashed"]
  /\ UNCHANGED <<files, lost>>
RemoveOld ==
  /\ Idle /\ UsableSet # {}
  /\ LET r == Root(Latest)
         old == {f \in files : Root(Idx(KeyOf(f))) < r} IN
       old # {} /\ files' = files \ old
  /\ UNCHANGED <<log, lost>>
Lose ==
  /\ lost < MaxLoss
  /\ \E f \in files : files' = files \ {f}
  /\ lost' = lost + 1 /\ UNCHANGED log
Next == StartFull \/ StartInc \/ Upload \/ Crash \/ RemoveOld \/ Lose
Spec == Init /\ [][Next]_vars

(* --------------------------- the properties ------------------------------ *)
Chains == BackupChains(files)
Present(i) == BKey(log[i]) \in Keys(files)
Siblings(i) == {j \in 1..Len(log) : j # i /\ log[j].inc /\ log[i].inc /\ log[j].p = log[i].p}
HasChild(i) == \E j \in 1..Len(log) : log[j].p = i /\ Present(j)
(* nothing competes with backup i for its place *)
Undisputed(i) == \A j \in Siblings(i) : Present(j) => (j < i /\ ~HasChild(j))
RangeOf(s) == {s[x] : x \in 1..Len(s)}

TypeOK == /\ lost \in 0..MaxLoss
          /\ \A i \in 1..Len(log) : log[i].st \in {"run", "done", "crashed"} /\ log[i].p < i
          /\ ~Ambiguous(files)

(* every chain is the true ancestry of its last member *)
Lineage == \A c \in RangeOf(Chains) :
             /\ [x \in 1..Len(c) |-> Idx(c[x])] = Ancestry(Idx(Last(c)))
             /\ ChainStart(c) = log[Root(Idx(Last(c)))].t1
(* every backup whose ancestors are there, and which nothing competes with, is found at its place *)
Found == \A i \in 1..Len(log) :
           (\A x \in RangeOf(Ancestry(i)) : Present(x) /\ Undisputed(x))
           => \E c \in RangeOf(Chains) : Len(c) >= Len(Ancestry(i)) /\ c[Len(Ancestry(i))] = BKey(log[i])
(* of several attempts from the same parent, only the last can be listed, unless others were built on *)
Superseded == \A c \in RangeOf(Chains) : \A x \in 1..Len(c) :
                (\E j \in Siblings(Idx(c[x])) : Present(j) /\ j > Idx(c[x])) => x < Len(c)
(* an incremental backup without its parent is in no chain; full backups always are *)
NoOrphans == \A c \in RangeOf(Chains) : \A k \in RangeOf(c) : KInc(k) => Present(log[Idx(k)].p)
EveryFull == \A i \in 1..Len(log) : (~log[i].inc /\ Present(i)) => \E c \in RangeOf(Chains) : c[1] = BKey(log[i])
Once == \A x, y \in 1..Len(Snapshots(files)) : Snapshots(files)[x] = Snapshots(files)[y] => x = y
Ordered == \A x \in 1..(Len(Chains) - 1) : TLess(ChainEnd(Chains[x]), ChainEnd(Chains[x + 1]))

(* ------------------------------ signatures ------------------------------- *)
SigChains == SigChainKeys(files)
SigOf(i) == \E f \in Sigs(files) : KeyOf(f) = BKey(log[i])
(* where the signature of set k is: <<chain, position>> *)
SigPos(k) == LET start == ChainStart(CHOOSE c \in RangeOf(Chains) : k \in RangeOf(c))
                 Of(x) == {<<x, y>> : y \in {y \in 1..Len(SigChains[x]) : KEnd(SigChains[x][y]) = KEnd(k)}}
             IN UNION {Of(x) : x \in {x \in 1..Len(SigChains) : ChainStart(SigChains[x]) = start}}
(* what is read for a snapshot is its own ancestry, nothing else *)
SigSound == \A k \in RangeOf(Snapshots(files)) : \A xy \in SigPos(k) :
              [z \in 1..xy[2] |-> Idx(SigChains[xy[1]][z])] = Ancestry(Idx(k))
SigUnique == \A k \in RangeOf(Snapshots(files)) : Cardinality(SigPos(k)) <= 1
(* and it is found whenever it is all there and nothing competes with it *)
SigUndisputed(i) == \A j \in Siblings(i) : SigOf(j) => (j < i /\ ~\E z \in 1..Len(log) : log[z].p = j /\ SigOf(z))
SigFound == \A k \in RangeOf(Snapshots(files)) :
              (\A x \in RangeOf(Ancestry(Idx(k))) : SigOf(x) /\ SigUndisputed(x)) => SigPos(k) # {}
=============================================================================
