------------------------------ MODULE GenArchive ----------------------------
(* Behaviours of the archive writer as conformance cases: TLC -simulate      *)
(* walks Archive at random and prints, now and then, the archive reached:    *)
(* the files with their names and, per backup, what its signature records.   *)
EXTENDS Archive, Json

CONSTANT Every            \* print about one state in Every

(* the tree seen by backup i: its own file and those of its ancestors, except
   that every backup deletes the file its grandparent added; "m" always changes *)
Nm(i) == B("n") \o Dec(i)
Nx(i) == Nm(i) \o B(".x")
Ny(i) == Nm(i) \o B("/y")
Entries(i) ==
  LET a == Ancestry(i)
      gp == IF Len(a) > 2 THEN a[Len(a) - 2] ELSE 0
      e(p, d) == [p |-> p, d |-> d, t |-> log[i].t1]
  IN <<e(<<>>, FALSE), e(B("m"), FALSE)>>
     \o (IF gp = 0 THEN <<>> ELSE <<e(Ny(gp), TRUE), e(Nx(gp), TRUE)>>)
     \o <<e(Nm(i), FALSE), e(Ny(i), FALSE), e(Nx(i), FALSE)>>

Sfx(f) == CASE f.k = "vol" -> B(".gz") [] f.k = "sig" /\ ~f.part -> B(".gz") [] OTHER -> <<>>
SfxEnc(f) == IF f.part THEN <<>> ELSE B(".gpg")
Out(style) ==
  [files |-> {[n |-> Name([f EXCEPT !.part = f.part] @@ [sfx |-> IF style = 1 THEN SfxEnc(f) ELSE Sfx(f)]),
               i |-> Idx(KeyOf(f)), k |-> f.k] : f \in files},
   log |-> log,
   recs |-> [i \in 1..Len(log) |-> Entries(i)]]
Emit == IF RandomElement(1..Every) = 1 /\ files # {}
        THEN PrintT("@@" \o ToJson(Out(RandomElement(0..4)))) ELSE TRUE
=============================================================================
