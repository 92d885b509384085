------------------------------ MODULE MCNaming ------------------------------
(* The grammar is unambiguous and complete: every abstract file has a name    *)
(* that reads back as that file in either letter case, no two files share a   *)
(* name, and a name with any one byte missing, or cut short, never reads as a *)
(* different kind of file or different times.                                 *)
EXTENDS Naming
CONSTANTS Wide
Days == IF Wide THEN {0, -719162, 2932896, 59, 11016, 16603} ELSE {0, 16603, 11016}
Secs == IF Wide THEN {0, 59, 3600, 86399} ELSE {0, 3661, 86399}
Vols == IF ~Wide THEN {<<12>>, MaxU64} ELSE {<<>>, <<1>>, <<12>>, <<0, 1>>, <<9999, 9999>>, MaxU64}
Sfxs == IF ~Wide THEN {<<>>, Gz, G} ELSE {<<>>, Gz, Gpg, G, Z}
VARIABLES theFile, stage   \* stage: 0 chosen, 1 looked at (so that all workers share the work)
Times == Days \X Secs
Raw == [k : {"vol"}, inc : BOOLEAN, t0 : Times, t1 : Times, vol : Vols, part : {FALSE}, sfx : Sfxs]
       \cup [k : {"man", "sig"}, inc : BOOLEAN, t0 : Times, t1 : Times, vol : {<<>>}, part : BOOLEAN, sfx : Sfxs]
Init == stage = 0 /\ theFile \in {g \in Raw : IF g.inc THEN TLess(g.t0, g.t1) ELSE g.t0 = g.t1}
Next == stage = 0 /\ stage' = 1 /\ UNCHANGED theFile
Spec == Init /\ [][Next]_<<theFile, stage>>
Upper(b) == [i \in 1..Len(b) |-> IF b[i] >= 97 /\ b[i] <= 122 THEN b[i] - 32 ELSE b[i]]
Same(r) == /\ r.c = "yes" /\ r.k = theFile.k /\ r.inc = theFile.inc /\ r.t0 = theFile.t0 /\ r.t1 = theFile.t1 /\ r.vol = theFile.vol
           /\ r.part = theFile.part /\ r.comp = (theFile.sfx \in {Gz, Z}) /\ r.enc = (theFile.sfx \in {Gpg, G})
RoundTrip == stage = 1 => Same(Parse(Name(theFile))) /\ Same(Parse(Upper(Name(theFile)))) /\ Same(Parse(Lower(Name(theFile))))
Without(b, i) == SubSeq(b, 1, i - 1) \o SubSeq(b, i + 1, Len(b))
(* a missing byte makes it a foreign file, or at most drops a suffix or a digit of the volume number *)
Close(r) == r.c # "yes" \/ (r.k = theFile.k /\ r.inc = theFile.inc /\ r.t0 = theFile.t0 /\ r.t1 = theFile.t1)
Robust == stage = 1 => \A i \in 1..Len(Name(theFile)) : Close(Parse(Without(Name(theFile), i))) /\ Close(Parse(SubSeq(Name(theFile), 1, i)))
(* a letter too many, up to and after the keyword, makes it a foreign file *)
KeywordEnd == Len(Name(theFile)) - Len(theFile.sfx) - (IF theFile.part THEN Len(PartS) ELSE 0)
With(b, i, x) == SubSeq(b, 1, i) \o <<x>> \o SubSeq(b, i + 1, Len(b))
Strict == stage = 1 => \A i \in 0..KeywordEnd : Parse(With(Name(theFile), i, 120)).c # "yes"
(* planted: case matters; the suffix may be anything; volume numbers as they fit *)
AsIs(b) == b
AnyTail(b, i) == TRUE
(* planted: a dot anywhere will do for what is at the end *)
SomeWhere(b, s) == HasSub(b, s)
=============================================================================
