------------------------------ MODULE CollCheck -----------------------------
(* Compares what the library says about a listing of names with what the     *)
(* archive model says.  Each operator gives the set of aspects that disagree.*)
EXTENDS Collections

Parsed(names) == {[n |-> n, r |-> Parse(n)] : n \in {names[i] : i \in 1..Len(names)}}
FileOf(x) == [name |-> x.n, k |-> x.r.k, inc |-> x.r.inc, t0 |-> x.r.t0, t1 |-> x.r.t1,
              vol |-> x.r.vol, part |-> x.r.part, comp |-> x.r.comp, enc |-> x.r.enc]
Unclear(P) == \E x \in P : x.r.c = "any"
FilesIn(P) == {FileOf(x) : x \in {x \in P : x.r.c = "yes"}}

If(ok, what) == IF ok THEN {} ELSE {what}

RecKey(rec) == <<rec.inc, rec.t0, rec.t1>>
RecKeys(ch) == <<RecKey(ch.full)>> \o [i \in 1..Len(ch.incs) |-> RecKey(ch.incs[i])]
RecAt(ch, i) == IF i = 1 THEN ch.full ELSE ch.incs[i - 1]

(* what must hold of every answer, also for listings no single archive could produce *)
Sane(F, out) ==
  LET cs == out.chains IN
  If(\A i \in 1..Len(cs) : LET ks == RecKeys(cs[i]) IN
       /\ ~ks[1][1] /\ \A j \in 2..Len(ks) : ks[j][1] /\ ks[j][2] = ks[j - 1][3]
       /\ \A j \in 1..Len(ks) : ks[j] \in Keys(F), "chain is contiguous and made of listed sets")
  \cup If(\A i \in 1..Len(cs) : LET ks == RecKeys(cs[i]) IN
       cs[i].t0 = ks[1][3] /\ cs[i].t1 = ks[Len(ks)][3], "chain times are those of its ends")
  \cup If(\A i \in 1..(Len(cs) - 1) : TLeq(cs[i].t1, cs[i + 1].t1), "chains are in order of end time")
  \cup If(out.n = Len(SeqExt!FlattenSeq([i \in 1..Len(cs) |-> RecKeys(cs[i])])), "number of snapshots")
Structure(F, out) ==
  LET cs == out.chains  want == BackupChains(F) IN
  Sane(F, out)
  \cup (IF Ambiguous(F) THEN {}
        ELSE If([i \in 1..Len(cs) |-> RecKeys(cs[i])] = want, "backup chains"))
Contents(F, out, q) ==
  LET cs == out.chains
      recs == UNION {{RecAt(cs[i], j) : j \in 1..(1 + Len(cs[i].incs))} : i \in 1..Len(cs)}
      mine == {r \in recs : RecKey(r) \in Keys(F)} IN
  If(\A r \in mine : SetManifestOk(r, F, RecKey(r)), "manifest of a set")
  \cup If(\A r \in mine : SetVolumesOk(r, F, RecKey(r), q), "volumes of a set")
  \cup If(\A r \in mine : SetFlagsOk(r, F, RecKey(r)), "flags of a set")
  \cup If(\A r \in recs : SetTimesOk(r, RecKey(r)) /\ r.full = ~r.inc, "kind of a set")

SigRecs(sc) == <<sc.full>> \o sc.incs
SigRecOk(rec, f) == rec.name = f.name /\ rec.t = f.t1 /\ rec.comp = f.comp /\ rec.enc = f.enc
(* a signature chain is an unbroken series of listed signature files *)
SigSane(F, out) ==
  If(\A i \in 1..Len(out.sigs) : LET rs == SigRecs(out.sigs[i]) IN
       \A j \in 1..Len(rs) : \E f \in Sigs(F) :
          /\ SigRecOk(rs[j], f) /\ f.inc = (j > 1)
          /\ (j > 1 => f.t0 = rs[j - 1].t), "signature chain is an unbroken series")
  \cup If(\A i \in 1..Len(out.sigs) : LET rs == SigRecs(out.sigs[i]) IN
       out.sigs[i].t0 = rs[1].t /\ out.sigs[i].t1 = rs[Len(rs)].t, "signature chain times")
Signatures(F, out) ==
  SigSane(F, out)
  \cup (IF SigAmbiguous(F) THEN {}
        ELSE If([i \in 1..Len(out.sigs) |-> [j \in 1..Len(SigRecs(out.sigs[i])) |-> SigRecs(out.sigs[i])[j].name]]
                = LET want == SigChainKeys(F) IN
                  [i \in 1..Len(want) |-> [j \in 1..Len(want[i]) |-> SigFile(F, want[i][j]).name]],
                "signature chains"))
=============================================================================
