------------------------------- MODULE Naming -------------------------------
(* The grammar of duplicity file names.                                      *)
(*                                                                           *)
(* Parse(name) is a record with a field c:                                   *)
(*   "yes"  a duplicity file; k, inc, t0, t1, vol, part, comp, enc follow     *)
(*   "no"   a foreign file: must not take part in the archive                *)
(*   "any"  the property does not say (see below); such names are only used  *)
(*          to check that nothing crashes                                    *)
EXTENDS Civil

FullP == B("duplicity-full.")
IncP  == B("duplicity-inc.")
FSigP == B("duplicity-full-signatures.")
NSigP == B("duplicity-new-signatures.")
ToS == B(".to.")
VolS == B(".vol")
TarS == B(".difftar")
ManS == B(".manifest")
SigS == B(".sigtar")
PartS == B(".part")
Gz == B(".gz")   Z == B(".z")   Gpg == B(".gpg")   G == B(".g")

No == [c |-> "no"]
Unsaid == [c |-> "any"]

(* what may follow the keyword: nothing, or a dot and anything *)
TailOk(b, i) == i = Len(b) + 1 \/ (i <= Len(b) /\ b[i] = DOT)

RECURSIVE DigitsEnd(_, _)
DigitsEnd(b, i) == IF i <= Len(b) /\ IsDigit(b[i]) THEN DigitsEnd(b, i + 1) ELSE i

(* the part of the name after the times, starting at position i of b; sig:
   signature or backup file *)
ParseRest(b, i, sig) ==
  IF sig THEN
    IF At(b, i, SigS) /\ TailOk(b, i + Len(SigS))
    THEN [c |-> "yes", k |-> "sig", vol |-> <<>>,
          part |-> At(b, i + Len(SigS), PartS) /\ TailOk(b, i + Len(SigS) + Len(PartS))]
    ELSE No
  ELSE IF At(b, i, VolS) THEN
    LET j == DigitsEnd(b, i + Len(VolS)) IN
    IF j > i + Len(VolS) /\ At(b, j, TarS) /\ TailOk(b, j + Len(TarS))
    THEN LET n == LimbsFrom(SubSeq(b, i + Len(VolS), j - 1)) IN
         IF CmpLimbs(n, MaxU64) > 0 THEN No   \* no volume has a number that cannot be told
         ELSE [c |-> "yes", k |-> "vol", vol |-> n, part |-> FALSE]
    ELSE No
  ELSE IF At(b, i, ManS) /\ TailOk(b, i + Len(ManS))
    THEN IF HasSub(From(b, i + Len(ManS)), VolS) THEN Unsaid  \* manifest of a volume?
         ELSE [c |-> "yes", k |-> "man", vol |-> <<>>,
               part |-> At(b, i + Len(ManS), PartS) /\ TailOk(b, i + Len(ManS) + Len(PartS))]
  ELSE No

WithTimes(r, b, inc, t0, t1) ==
  IF r.c # "yes" THEN r
  ELSE [c |-> "yes", k |-> r.k, vol |-> r.vol, part |-> r.part,
        inc |-> inc, t0 |-> t0, t1 |-> t1,
        comp |-> EndsWith(b, Gz) \/ EndsWith(b, Z),
        enc |-> EndsWith(b, Gpg) \/ EndsWith(b, G)]

ParseOne(b, p, sig) ==
  LET t == StampAt(b, Len(p) + 1) IN
  IF t = None THEN No
  ELSE WithTimes(ParseRest(b, Len(p) + 17, sig), b, FALSE, t[1], t[1])
ParseTwo(b, p, sig) ==
  LET t0 == StampAt(b, Len(p) + 1) IN
  IF t0 = None \/ ~At(b, Len(p) + 17, ToS) THEN No
  ELSE LET t1 == StampAt(b, Len(p) + 21) IN
       IF t1 = None THEN No
       ELSE WithTimes(ParseRest(b, Len(p) + 37, sig), b, TRUE, t0[1], t1[1])

ParseLower(b) ==
  IF StartsWith(b, FullP) THEN ParseOne(b, FullP, FALSE)
  ELSE IF StartsWith(b, IncP) THEN ParseTwo(b, IncP, FALSE)
  ELSE IF StartsWith(b, FSigP) THEN ParseOne(b, FSigP, TRUE)
  ELSE IF StartsWith(b, NSigP) THEN ParseTwo(b, NSigP, TRUE)
  ELSE No

(* duplicity names are text; one that is not UTF-8 cannot be represented by
   the API, which reports names as text, and must not take part *)
Parse(name) == IF IsUtf8(name) THEN ParseLower(Lower(name)) ELSE No

(* ---- rendering: the canonical name of an abstract file, as duplicity writes
   it.  f.sfx is the suffix (".gz", ".gpg", "" ...) in bytes. *)
Name(f) ==
  (CASE f.k = "sig" /\ ~f.inc -> FSigP \o StampText(f.t0)
     [] f.k = "sig" /\ f.inc -> NSigP \o StampText(f.t0) \o ToS \o StampText(f.t1)
     [] f.k # "sig" /\ ~f.inc -> FullP \o StampText(f.t0)
     [] f.k # "sig" /\ f.inc -> IncP \o StampText(f.t0) \o ToS \o StampText(f.t1))
  \o (CASE f.k = "sig" -> SigS \o (IF f.part THEN PartS ELSE <<>>)
        [] f.k = "man" -> ManS \o (IF f.part THEN PartS ELSE <<>>)
        [] f.k = "vol" -> VolS \o DecLimbs(f.vol) \o TarS)
  \o f.sfx
=============================================================================
