------------------------------ MODULE MCManifest ----------------------------
(* Manifests of nasty bytes, written and read back; and written, cut short    *)
(* and read back.                                                             *)
EXTENDS ManifestText
CONSTANTS MaxVols, PathLen, Bytes, Cutting
(* a letter, a space, both quotes, a backslash, a newline, a slash, x, 0, high bytes *)
NastyBytes == <<97, 32, 34, 92, 10, 47, 120, 48, 255, 39, 13, 195>>
BS == {NastyBytes[i] : i \in 1..Bytes}
PathsUpTo(n) == UNION {[1..k -> BS] : k \in 0..n}
VARIABLES text
mvars == <<text>>
Vols == [s : PathsUpTo(PathLen), sb : {None, Some(<<>>), Some(<<5, 1>>)}, e : {<<97>>, <<97, 32>>, <<34>>}, eb : {None, Some(<<12>>)},
         ht : {B("SHA1")}, h : {<<0, 255, 160>>}]
Hosts == {<<>>, B("h"), B("a-b.c")}
Init == text \in [host : Hosts, dir : PathsUpTo(PathLen), vols : {<<>>}]
AddVol == /\ Len(text.vols) < MaxVols
          /\ \E v \in Vols :
               /\ (Len(text.vols) > 0 => v.sb = None /\ v.eb = None)
               /\ (Len(text.dir) > 0 \/ text.host # B("h") => v.e = <<97>> /\ v.sb = None)   \* (vary a few things at a time)
               /\ text' = [text EXCEPT !.vols = Append(@, v)]
Next == AddVol
Spec == Init /\ [][Next]_mvars
(* what is read is what was written *)
RoundTrip == LET r == Read(Render(text)) IN r.k = "ok" /\ r.m = text
(* with anything missing at the end, no volume is lost without notice, and only
   the hash of the last one can be shortened *)
CutShort ==
  LET b == Render(text) IN
  \A n \in 0..(Len(b) - 1) :
    LET p == SubSeq(b, 1, n)  r == Read(p)
        started == Cardinality({i \in 1..Len(LinesOf(p)) : Words(LinesOf(p)[i]) # <<>> /\ Words(LinesOf(p)[i])[1] = VolKw}) IN
    /\ r.k = "ok" =>
         /\ Len(r.m.vols) = started
         /\ \A i \in 1..Len(r.m.vols) : i < Len(r.m.vols) => r.m.vols[i] = text.vols[i]
         /\ started > 0 => [r.m.vols[started] EXCEPT !.h = <<>>] = [text.vols[started] EXCEPT !.h = <<>>]
    /\ r.k = "err" => r.errs # {}
Cuts == Cutting /\ Len(text.vols) <= 1 /\ Len(text.dir) <= 1 => CutShort
(* in ASCII apart from paths; one line per fact *)
Shape == LET b == Render(text) IN Cardinality({i \in 1..Len(b) : b[i] = NL}) = 2 + 4 * Len(text.vols)
(* planted: only spaces are quoted; a backslash is not; escapes read back by their last digit; *)
OnlySpaces(c) == IsSpaceByte(c)
NotBackslash(c) == IsSpaceByte(c) \/ c \in {QUOTE, 39}
RECURSIVE HalfUnesc(_, _)
HalfUnesc(b, i) == IF i > Len(b) THEN <<>>
                   ELSE IF b[i] = BSL THEN <<HexVal(b[i + 3])>> \o HalfUnesc(b, i + 4)
                   ELSE <<b[i]>> \o HalfUnesc(b, i + 1)
(* planted: a volume that breaks off counts as the end *)
RECURSIVE Lenient(_, _, _)
Lenient(ls, i, n) ==
  IF ~HasLine(ls, i) THEN Got(<<>>)
  ELSE IF ls[i] = <<>> THEN Lenient(ls, i + 1, n)
  ELSE LET r == First(<<VolLine(ls, i), PathLine(ls, i + 1, StartKw, "StartingPath"), PathLine(ls, i + 2, EndKw, "EndingPath"), HashLine(ls, i + 3)>>) IN
       IF r.o = "err" THEN Got(<<>>)
       ELSE IF r.o = "loose" THEN Loose
       ELSE LET rest == Lenient(ls, i + 4, n + 1) IN
            IF rest.o # "got" THEN rest
            ELSE Got(<<[s |-> r.v[2][1], sb |-> r.v[2][2], e |-> r.v[3][1], eb |-> r.v[3][2], ht |-> r.v[4][1], h |-> r.v[4][2]]>> \o rest.v)
=============================================================================
