------------------------------- MODULE Session ------------------------------
(* What a reader of an archive may answer, request by request.                *)
(*                                                                           *)
(* An archive (built by Understand) says which snapshots there are, which     *)
(* files each depends on and what its entries are.  The state of a session:   *)
(*   open    a backup is open                                                 *)
(*   loaded  the files whose content the open backup holds: whatever          *)
(*           successful requests have read                                    *)
(*   hs, ms  results held by the client: handle -> snapshot (0: nothing)      *)
(*   faults  what is wrong with the backend now: set of [n, kind, e, at]      *)
(*   lf      listing the backend fails with this error (option)               *)
(* Step judges one recorded answer and gives the next state.                  *)
EXTENDS CollCheck, ManifestText

CompLess(p, q) == CmpPaths(p, q) < 0
SM == INSTANCE SigMerge WITH Less <- CompLess
IT == INSTANCE Iter

(* ------------------------------ the archive ------------------------------ *)
(* files: sequence of [n, k] with es (entries) if k = "sig", raw if k = "man" *)
Content(files, n) == files[CHOOSE i \in 1..Len(files) : files[i].n = n]
Understand(files) ==
  LET P == Parsed([i \in 1..Len(files) |-> files[i].n])
      F == FilesIn(P)
      clear == ~Unclear(P) /\ ~Ambiguous(F) /\ ~SigAmbiguous(F)
      cs == BackupChains(F)
      ss == SigChainKeys(F)
      SigsOf(c) == {s \in {ss[i] : i \in 1..Len(ss)} : KEnd(s[1]) = ChainStart(c)}
      RangeOf(s) == {s[i] : i \in 1..Len(s)}
      OwnKeys(c) == RangeOf(c) \cup UNION {RangeOf(s) : s \in SigsOf(c)}
      (* the signature file of every backup of a chain, if it is there *)
      SigNames(c) == TLCEval([y \in 1..Len(c) |-> {f.name : f \in {f \in Sigs(F) : KeyOf(f) = c[y]}}])
      ChainInfo(c) ==
        LET keys == OwnKeys(c)
            own == {f \in Sigs(F) : KeyOf(f) \in keys}
            sn == SigNames(c)
            sealed == \E f \in own : f.enc             \* encrypted: the content is out of reach
            names == {f.name : f \in own}
            Pairs(idf, namef) == UNION {LET es == Content(files, n).es IN
              {<<es[i][idf][1], es[i][namef][1]>> : i \in {i \in 1..Len(es) :
                 ~es[i].d /\ es[i][idf] # None /\ es[i][namef] # None /\ IsUtf8(es[i][namef][1])}} : n \in names} IN
        [own |-> names, sealed |-> sealed, sn |-> sn,
         (* what each backup of the chain recorded *)
         recs |-> TLCEval([y \in 1..Len(c) |-> IF sealed \/ sn[y] = {} THEN <<>>
                                              ELSE Content(files, CHOOSE n \in sn[y] : TRUE).es]),
         (* the names recorded for ids *)
         us |-> IF sealed THEN {} ELSE Pairs("uid", "un"),
         gs |-> IF sealed THEN {} ELSE Pairs("gid", "gn"),
         sigs |-> SigsOf(c)]
      SnapInfo(c, x, j, info) ==
        [c |-> x, j |-> j, key |-> c[j], need |-> UNION {info.sn[y] : y \in 1..j},
         all |-> \A y \in 1..j : info.sn[y] # {},
         found |-> \E s \in info.sigs : Len(s) >= j /\ SubSeq(s, 1, j) = SubSeq(c, 1, j),
         mans |-> LET m == Manifests(F, c[j])  w == {f \in m : ~f.part} IN
                  {f.name : f \in IF w # {} THEN w ELSE m}]
      infos == IF clear THEN TLCEval([x \in 1..Len(cs) |-> ChainInfo(cs[x])]) ELSE <<>>
      snaps == IF clear THEN TLCEval(SeqExt!FlattenSeq([x \in 1..Len(cs) |->
                                [j \in 1..Len(cs[x]) |-> SnapInfo(cs[x], x, j, infos[x])]]))
               ELSE <<>>
  IN TLCEval([clear |-> clear, F |-> F, files |-> files, chains |-> IF clear THEN cs ELSE <<>>,
              cinfo |-> infos, snaps |-> snaps])

Listing(A, s) == SM!Latest(A.cinfo[s.c].recs, s.j)

(* ------------------------------- entries --------------------------------- *)
TypeOf(b) == CASE b \in {0, 48} -> <<"File", 0>>
               [] b = 53 -> <<"Dir", 0>>
               [] b = 49 -> <<"HardLink", 0>>
               [] b = 50 -> <<"SymLink", 0>>
               [] b = 54 -> <<"Fifo", 0>>
               [] OTHER -> <<"Unknown", b>>
(* a file with a signature of n blocks of blk bytes has more than (n-1)*blk and
   at most n*blk bytes *)
SigMax(z) == MulLimbs(z.blk, z.n)
SigMin(z) == IF z.n = <<>> THEN <<>> ELSE AddLimbs(MulLimbs(z.blk, SubLimbs(z.n, <<1>>)), <<1>>)
SizeOk(z, x) ==
  CASE z.k = "exact" -> x = <<<<z.n, z.n>>>>
    [] z.k = "bad" -> x = <<>>
    [] z.k = "sig" -> /\ Len(x) = 1
                      /\ CmpLimbs(x[1][1], SigMin(z)) <= 0 /\ CmpLimbs(x[1][2], SigMax(z)) >= 0
                      /\ CmpLimbs(x[1][2], AddLimbs(x[1][1], z.blk)) <= 0
NameOk(pairs, id, shown) ==
  IF id = None THEN shown = None
  ELSE LET have == {p[2] : p \in {p \in pairs : p[1] = id[1]}} IN
       IF shown = None THEN have = {} \/ <<>> \in have
       ELSE shown[1] \in have \/ (shown[1] = <<>> /\ have = {})
EntryBad(e, x, us, gs) ==
  If(x.p = e.p /\ x.pok, "path") \cup If(x.t = e.t, "modification time")
  \cup If(x.uid = e.uid, "user id") \cup If(x.gid = e.gid, "group id") \cup If(x.mode = e.mode, "permissions")
  \cup If(x.ty = TypeOf(e.ty), "type") \cup If(x.ln = e.ln, "link target")
  \cup If(SizeOk(e.sz, x.sz), "size bounds")
  \cup If(NameOk(us, e.uid, x.un), "user name") \cup If(NameOk(gs, e.gid, x.gn), "group name")
EntriesDiffer(want, es, us, gs) ==
  IF [i \in 1..Len(es) |-> es[i].p] # [i \in 1..Len(want) |-> want[i].p] THEN {"the listing has other paths"}
  ELSE UNION {EntryBad(want[i], es[i], us, gs) : i \in 1..Len(es)}
DumpBad(A, s, es) == EntriesDiffer(Listing(A, s), es, A.cinfo[s.c].us, A.cinfo[s.c].gs)
ListBad(A, s, es) ==
  LET want == Listing(A, s) IN
  If([i \in 1..Len(es) |-> <<es[i].p, es[i].t>>] = [i \in 1..Len(want) |-> <<want[i].p, want[i].t>>],
     "the listing has other paths or times")

(* ------------------------------- sessions -------------------------------- *)
Handles == 0..15
(* loaded: files read by requests that succeeded; maybe: read by those that found no snapshot to list *)
Closed(faults, lf) == [open |-> FALSE, loaded |-> {}, maybe |-> {}, hs |-> [h \in Handles |-> 0], ms |-> [h \in Handles |-> 0],
                       faults |-> faults, lf |-> lf]
Fresh == Closed({}, None)

Opened(st) == [Closed(st.faults, st.lf) EXCEPT !.open = TRUE]
RangeS(s) == {s[i] : i \in 1..Len(s)}
NoDup(s) == Cardinality(RangeS(s)) = Len(s)
Failing(st, names) == {f \in st.faults : f.n \in names /\ f.kind \in {"open", "read"}}
(* a signature file whose reading fails: at a byte every reader needs, or possibly behind it *)
SureFaults(st, names) == {f \in Failing(st, names) : f.kind = "open" \/ f.sure}

(* what a request for the entries of snapshot s may do: opens is the sequence
   of files it opened *)
EntriesBad(A, st, s, ok, err, opens) ==
  LET C == A.cinfo[s.c]
      fresh == C.own \ st.loaded
      sick == {f.e : f \in Failing(st, fresh)}
      sickNeed == SureFaults(st, s.need \ (st.loaded \cup st.maybe)) # {}
  IN If(RangeS(opens) \subseteq C.own, "opens a file that is not a signature of its chain")
     \cup If(NoDup(opens), "opens a file twice")
     \cup If(RangeS(opens) \cap st.loaded = {}, "opens a file it has already read")
     \cup (IF C.sealed THEN {}
           ELSE IF ok THEN
             If(s.all, "lists a snapshot whose signatures are not all there")
             \cup If(~sickNeed, "lists a snapshot although a file it needs cannot be read")
           ELSE IF err = "NotFound" /\ ~s.found THEN {}
           ELSE If(err \in sick, IF sick = {} THEN "fails without reason" ELSE "fails with an error that is not the backend's"))
AfterEntries(st, s, ok, err, opens, h, i) ==
  IF ok THEN [st EXCEPT !.loaded = @ \cup RangeS(opens), !.hs[h] = i]
  ELSE IF err = "NotFound" /\ ~s.found
  THEN [st EXCEPT !.maybe = @ \cup {n \in RangeS(opens) : Failing(st, {n}) = {}}]
  ELSE st

ManifestBad(A, st, s, res) ==
  LET own == s.mans
      opens == res.opens
      sick == {f \in st.faults : f.n \in own /\ f.kind \in {"open", "read"}}
      one == CHOOSE n \in own : TRUE
      held == own \cap st.loaded # {}
      r == Read(Content(A.files, one).raw)
      reaches(f) == f.kind = "open" \/ f.at <= Len(Content(A.files, one).raw)
      sickNow == {f \in sick : reaches(f)}
  IN If(RangeS(opens) \subseteq own, "opens a file that is not its manifest")
     \cup If(NoDup(opens), "opens a file twice")
     \cup If(RangeS(opens) \cap st.loaded = {}, "opens a file it has already read")
     \cup (IF own = {} THEN If(~res.ok /\ res.err = <<"Io", "NotFound">>, "the manifest is not there")
           ELSE IF Cardinality(own) > 1 THEN {}
           ELSE IF ~held /\ sickNow # {} THEN If(~res.ok /\ \E f \in sickNow : res.err = <<"Io", f.e>>, "the error is not the backend's")
           ELSE IF r.k = "ok" THEN If(res.ok, "a good manifest is refused")
           ELSE IF r.k = "err" THEN If(~res.ok /\ \E e \in r.errs : res.err = e, "a bad manifest is not refused as such")
           ELSE {})
AfterManifest(st, res, m, i) ==
  IF res.ok THEN [st EXCEPT !.loaded = @ \cup RangeS(res.opens), !.ms[m] = i] ELSE st
MdumpBad(A, s, res) ==
  IF Cardinality(s.mans) # 1 THEN {}
  ELSE If(Admits(Read(Content(A.files, CHOOSE n \in s.mans : TRUE).raw), [ok |-> TRUE, m |-> res.m]), "the manifest differs")

SnapsBad(A, res, q) ==
  IF ~A.clear THEN {}
  ELSE If(Len(res.snaps) = Len(A.snaps), "number of snapshots enumerated")
       \cup If(\A i \in 1..Min2(Len(A.snaps), Len(res.snaps)) :
                 LET r == res.snaps[i]  k == A.snaps[i].key IN
                 /\ r.t = KEnd(k) /\ r.full = ~KInc(k) /\ r.inc = KInc(k)
                 /\ r.nvol = Cardinality(VolNumbers(A.F, k))
                 /\ SetOk(r.set, A.F, k, q), "a snapshot")
       \cup If(res.opens = <<>>, "enumerating snapshots opens files")
CollBad(A, res, q) ==
  (IF ~A.clear THEN {} ELSE Structure(A.F, res) \cup Contents(A.F, res, q) \cup Signatures(A.F, res))
(* ----------------------------- enumerations ------------------------------ *)
(* what is enumerated, as a sequence of what identifies each thing *)
SigRecs2(A, ks) == TLCEval([y \in 1..Len(ks) |-> Content(A.files, SigFile(A.F, ks[y]).name).es])
FirstTime(rs, y) == LET l == SM!Latest(rs, y) IN IF l = <<>> THEN <<>> ELSE l[1].t
ThingsOf(A, st, step) ==
  CASE step.what = "snaps" -> Some([y \in 1..Len(A.snaps) |-> KEnd(A.snaps[y].key)])
    [] step.what = "chains" -> Some([y \in 1..Len(A.chains) |-> ChainStart(A.chains[y])])
    [] step.what = "incs" -> IF step.i >= Len(A.chains) THEN None
         ELSE LET c == A.chains[step.i + 1] IN Some([y \in 1..(Len(c) - 1) |-> KEnd(c[y + 1])])
    [] step.what = "entries" -> IF st.hs[step.h] = 0 THEN None
         ELSE LET l == Listing(A, A.snaps[st.hs[step.h]]) IN Some([y \in 1..Len(l) |-> l[y].p])
    [] OTHER -> LET ss == SigChainKeys(A.F) IN
         IF step.what = "sigchains" THEN Some([y \in 1..Len(ss) |-> KEnd(ss[y][1])])
         ELSE IF step.i >= Len(ss) THEN None
         ELSE LET c == ss[step.i + 1] IN
              IF step.what = "incsigs" THEN Some([y \in 1..(Len(c) - 1) |-> KEnd(c[y + 1])])
              ELSE LET rs == SigRecs2(A, c) IN Some([y \in 1..Len(c) |-> FirstTime(rs, y)])
SealedThings(A, st, step) ==
  IF step.what = "entries" THEN st.hs[step.h] # 0 /\ A.cinfo[A.snaps[st.hs[step.h]].c].sealed
  ELSE step.what = "sig" /\ \E f \in Sigs(A.F) : f.enc
IterBad(A, st, step, res) ==
  IF SealedThings(A, st, step) THEN {}
  ELSE LET things == TLCEval(ThingsOf(A, st, step)) IN
       IF "nochain" \in DOMAIN res \/ "nohandle" \in DOMAIN res THEN If(things = None, "something enumerable is missing")
       ELSE IF things = None THEN {"an enumeration out of nowhere"}
       ELSE IF ~res.ok THEN {"a chain does not load"}
       ELSE IT!OpsBad(TLCEval(things[1]), 0, step.ops, res.res, 1)

(* a signature chain on its own *)
SigTextBad(A, step, res) ==
  LET ss == SigChainKeys(A.F) IN
  IF "nochain" \in DOMAIN res THEN If(step.i >= Len(ss), "a chain is missing")
  ELSE IF step.i >= Len(ss) THEN {"a chain too many"}
  ELSE IF \E f \in Sigs(A.F) : f.enc THEN {}
  ELSE IF ~res.ok THEN {"a chain does not load"}
  ELSE LET c == ss[step.i + 1]  rs == SigRecs2(A, c)
           Ids(idf, namef) == UNION {{<<rs[y][i][idf][1], rs[y][i][namef][1]>> : i \in {i \in 1..Len(rs[y]) :
                 ~rs[y][i].d /\ rs[y][i][idf] # None /\ rs[y][i][namef] # None /\ IsUtf8(rs[y][i][namef][1])}} : y \in 1..Len(c)} IN
       If(Len(res.snaps) = Len(c), "number of snapshots in a chain")
       \cup UNION {EntriesDiffer(SM!Latest(rs, y), res.snaps[y].e, Ids("uid", "un"), Ids("gid", "gn")) : y \in 1..Min2(Len(c), Len(res.snaps))}
Crashed(res) == "panic" \in DOMAIN res

(* only requests that need a file open one, and nothing but opening lists *)
IdleBad(step, res) ==
  (IF "opens" \in DOMAIN res /\ step.s \notin {"entries", "manifest"} /\ ~(step.s = "iter" /\ step.what = "sig") /\ step.s # "sigtext"
   THEN If(res.opens = <<>>, "opens files without need") ELSE {})
  \cup (IF "lists" \in DOMAIN res /\ step.s # "open" THEN If(res.lists = 0, "lists the backend again") ELSE {})
(* judges the answer to one step; q: the step's volume numbers as limbs *)
StepBad(A, st, step, res) ==
  IF Crashed(res) THEN {"panic"}
  ELSE IdleBad(step, res) \cup CASE step.s \in {"fault", "heal", "listfault", "close", "drop", "mdrop"} -> {}
    [] step.s = "open" ->
         IF st.lf # None THEN If(~res.ok /\ res.err = st.lf[1] /\ res.opens = <<>>, "the error of the listing is not reported")
         ELSE If(res.ok, "does not open") \cup (IF res.ok THEN If(res.opens = <<>> /\ res.lists = 1, "opening reads files or lists again") ELSE {})
    [] step.s = "snaps" -> SnapsBad(A, res, step.lq)
    [] step.s = "coll" -> CollBad(A, res, step.lq)
    [] "nosnap" \in DOMAIN res -> IF A.clear THEN If(step.i >= Len(A.snaps), "a snapshot is missing") ELSE {}
    [] step.s = "entries" -> IF ~A.clear THEN {}
         ELSE IF step.i >= Len(A.snaps) THEN {"a snapshot too many"}
         ELSE EntriesBad(A, st, A.snaps[step.i + 1], res.ok, IF res.ok THEN "" ELSE res.err, res.opens)
    [] step.s = "manifest" -> IF ~A.clear THEN {}
         ELSE IF step.i >= Len(A.snaps) THEN {"a snapshot too many"}
         ELSE ManifestBad(A, st, A.snaps[step.i + 1], res)
    [] step.s \in {"dump", "list", "text"} -> IF ~A.clear THEN {}
         ELSE IF st.hs[step.h] = 0 THEN If("nohandle" \in DOMAIN res, "a result out of nowhere")
         ELSE IF "nohandle" \in DOMAIN res THEN {"a held result is lost"}
         ELSE LET s == A.snaps[st.hs[step.h]] IN
              IF A.cinfo[s.c].sealed THEN {}
              ELSE IF step.s = "list" THEN ListBad(A, s, res.e) ELSE DumpBad(A, s, res.e)
    [] step.s = "mdump" -> IF ~A.clear THEN {}
         ELSE IF st.ms[step.m] = 0 THEN If("nohandle" \in DOMAIN res, "a result out of nowhere")
         ELSE IF "nohandle" \in DOMAIN res THEN {"a held result is lost"}
         ELSE MdumpBad(A, A.snaps[st.ms[step.m]], res)
    [] step.s = "sigtext" -> IF ~A.clear THEN {} ELSE SigTextBad(A, step, res)
    [] step.s = "iter" -> IF ~A.clear THEN {} ELSE IterBad(A, st, step, res)
    [] OTHER -> {}
StepNext(A, st, step, res) ==
  IF Crashed(res) THEN st
  ELSE CASE step.s = "fault" ->
         LET rest == {f \in st.faults : f.n # step.n} IN
         [st EXCEPT !.faults = IF step.kind = "none" THEN rest ELSE rest \cup {[n |-> step.n, kind |-> step.kind, e |-> step.e, at |-> step.at,
                                                                              sure |-> "sure" \in DOMAIN step /\ step.sure]}]
    [] step.s = "heal" -> [st EXCEPT !.faults = {}, !.lf = None]
    [] step.s = "listfault" -> [st EXCEPT !.lf = Some(step.e)]
    [] step.s = "open" -> IF res.ok THEN Opened(st) ELSE st
    [] step.s = "close" -> Closed(st.faults, st.lf)
    [] step.s = "drop" -> [st EXCEPT !.hs[step.h] = 0]
    [] step.s = "mdrop" -> [st EXCEPT !.ms[step.m] = 0]
    [] "nosnap" \in DOMAIN res -> st
    [] step.s = "entries" -> AfterEntries(st, A.snaps[step.i + 1], res.ok, IF res.ok THEN "" ELSE res.err, res.opens, step.h, step.i + 1)
    [] step.s = "manifest" -> AfterManifest(st, res, step.m, step.i + 1)
    [] OTHER -> st
=============================================================================
