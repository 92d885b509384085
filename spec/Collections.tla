----------------------------- MODULE Collections ----------------------------
(* How an archive is understood from the names of its files.                 *)
(*                                                                           *)
(* A file is a record [name, k, inc, t0, t1, vol, part, comp, enc] (Naming). *)
(* F is a set of files.  A set key <<inc, t0, t1>> names a backup set.       *)
EXTENDS Naming, ChainRule

SeqExt == INSTANCE SequencesExt

KeyOf(f) == <<f.inc, f.t0, f.t1>>
Keys(F) == {KeyOf(f) : f \in F}
FilesOf(F, k) == {f \in F : KeyOf(f) = k}

(* Two different sets that end at the same instant cannot come from the same
   archive, and no backup ends before the one it was made from: what such a
   listing means is not specified. *)
Ambiguous(F) == \/ \E a, b \in Keys(F) : a # b /\ KEnd(a) = KEnd(b)
                \/ \E a \in Keys(F) : KInc(a) /\ TLeq(KEnd(a), KStart(a))

ByEnd(S) == SeqExt!SetToSortSeq(S, LAMBDA a, b : TLess(KEnd(a), KEnd(b)))

(* ---- backup chains: sequences of keys ----------------------------------- *)
(* (a set is added to the chains by AddSet of ChainRule)                    *)
RECURSIVE FoldSets(_, _, _)
FoldSets(cs, ks, i) == IF i > Len(ks) THEN cs ELSE FoldSets(AddSet(cs, ks[i]), ks, i + 1)
RawChains(F) == FoldSets(<<>>, ByEnd(Keys(F)), 1)
ChainEnd(c) == KEnd(Last(c))
ChainStart(c) == KEnd(c[1])
(* in order of end time *)
BackupChains(F) == SortSeq(RawChains(F), LAMBDA a, b : TLess(ChainEnd(a), ChainEnd(b)))

(* ---- signature chains: the same rules over the signature files ---------- *)
Sigs(F) == {f \in F : f.k = "sig"}
SigAmbiguous(F) == \/ \E f, g \in Sigs(F) : f # g /\ f.t1 = g.t1
                   \/ \E f \in Sigs(F) : f.inc /\ TLeq(f.t1, f.t0)
SigChainKeys(F) ==
  SortSeq(FoldSets(<<>>, ByEnd(Keys(Sigs(F))), 1), LAMBDA a, b : TLess(ChainStart(a), ChainStart(b)))
SigFile(F, k) == CHOOSE f \in Sigs(F) : KeyOf(f) = k

(* ---- what a set reports -------------------------------------------------- *)
Manifests(F, k) == {f \in FilesOf(F, k) : f.k = "man"}
Volumes(F, k) == {f \in FilesOf(F, k) : f.k = "vol"}
VolNumbers(F, k) == {f.vol : f \in Volumes(F, k)}
WholeManifests(F, k) == {f \in Manifests(F, k) : ~f.part}

(* rec: a set as the executor projects it; q: the volume numbers asked for *)
SetTimesOk(rec, k) == /\ rec.full = ~KInc(k) /\ rec.inc = KInc(k)
                      /\ rec.t0 = KStart(k) /\ rec.t1 = KEnd(k)
SetManifestOk(rec, F, k) ==
  /\ rec.complete = (Manifests(F, k) # {})
  /\ rec.man \in (IF Manifests(F, k) = {} THEN {<<>>}
                  ELSE {f.name : f \in IF WholeManifests(F, k) # {} THEN WholeManifests(F, k) ELSE Manifests(F, k)})
SetVolumesOk(rec, F, k, q) ==
  /\ rec.nvol = Cardinality(VolNumbers(F, k))
  /\ Len(rec.vols) = Len(q)
  /\ \A i \in 1..Len(q) :
       LET have == {f.name : f \in {f \in Volumes(F, k) : f.vol = q[i]}} IN
       IF have = {} THEN rec.vols[i] = None ELSE Len(rec.vols[i]) = 1 /\ rec.vols[i][1] \in have
(* a flag is certain where all the evidence agrees *)
PartEvidence(F, k) == {f \in FilesOf(F, k) : f.k \in {"man", "sig"}}
SetFlagsOk(rec, F, k) ==
  LET fs == FilesOf(F, k)
      man == Manifests(F, k)
      data == Volumes(F, k)
  IN /\ (\E f \in data : f.comp) => rec.comp
     /\ (\A f \in fs : ~f.comp) => ~rec.comp
     /\ (\E f \in data \cup man : f.enc) => rec.enc
     /\ (\A f \in fs : ~f.enc) => ~rec.enc
     /\ (man # {} /\ \A f \in PartEvidence(F, k) : f.part) => rec.partial
     /\ (\A f \in PartEvidence(F, k) : ~f.part) => ~rec.partial
     /\ (WholeManifests(F, k) = {} /\ \E f \in PartEvidence(F, k) : f.part) => rec.partial
SetOk(rec, F, k, q) == SetTimesOk(rec, k) /\ SetManifestOk(rec, F, k) /\ SetVolumesOk(rec, F, k, q)
                       /\ SetFlagsOk(rec, F, k)

(* the snapshots, in the order in which they are enumerated *)
Snapshots(F) == SeqExt!FlattenSeq(BackupChains(F))
=============================================================================
