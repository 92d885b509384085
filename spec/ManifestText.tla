----------------------------- MODULE ManifestText ---------------------------
(* Manifest files: what duplicity writes (Render) and what a byte string      *)
(* means to a reader (Read).                                                  *)
(*                                                                           *)
(* A manifest is [host, dir, vols]; a volume is [s, sb, e, eb, ht, h]: start  *)
(* and end path, their blocks (options, limbs), hash type and hash (bytes).   *)
(*                                                                           *)
(* Read gives [k |-> "ok", m |-> ..], [k |-> "err", errs |-> ..] (the errors  *)
(* any of which names the defect) or [k |-> "loose", nvol |-> ..] for texts   *)
(* that the format says nothing about; then only what every reader must       *)
(* guarantee is required (Admits).                                            *)
EXTENDS Text

(* ------------------------------- writer ---------------------------------- *)
IsSpaceByte(c) == c \in {9, 10, 11, 12, 13, 32}
MustQuote(c) == IsSpaceByte(c) \/ c \in {QUOTE, 39, BSL}
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
QuoteByte(c) == IF MustQuote(c) THEN <<BSL, 120, HexDigit(c \div 16), HexDigit(c % 16)>> ELSE <<c>>
Quote(b) == IF b = <<>> \/ \E i \in 1..Len(b) : MustQuote(b[i])
            THEN <<QUOTE>> \o Flat([i \in 1..Len(b) |-> QuoteByte(b[i])]) \o <<QUOTE>>
            ELSE b
Hex(b) == Flat([i \in 1..Len(b) |-> <<HexDigit(b[i] \div 16), HexDigit(b[i] % 16)>>])
HostKw == B("Hostname")  DirKw == B("Localdir")  VolKw == B("Volume")
StartKw == B("StartingPath")  EndKw == B("EndingPath")  HashKw == B("Hash")
(* a block that is not there is written as a space *)
Block(o) == IF o = None THEN <<SP>> ELSE DecLimbs(o[1])
Line(s) == Append(s, NL)
RenderVol(v, i) ==
  Line(VolKw \o <<SP>> \o Dec(i) \o <<58>>)
  \o Line(B("    StartingPath   ") \o Quote(v.s) \o <<SP>> \o Block(v.sb))
  \o Line(B("    EndingPath     ") \o Quote(v.e) \o <<SP>> \o Block(v.eb))
  \o Line(B("    Hash ") \o v.ht \o <<SP>> \o Hex(v.h))
RenderHead(m) == Line(HostKw \o <<SP>> \o m.host) \o Line(DirKw \o <<SP>> \o Quote(m.dir))
Render(m) == RenderHead(m) \o Flat([i \in 1..Len(m.vols) |-> RenderVol(m.vols[i], i)])

(* ------------------------------- reader ---------------------------------- *)
Eof == <<"Io", "UnexpectedEof">>
Missing(kw) == <<"MissingKeyword", kw>>
UtfErr == <<"Utf8", "">>
IntErr == <<"ParseInt", "">>
OrderErr == <<"OutOfOrderVolume", "">>

LinesOf(b) == LET ls == Split(b, NL) IN
              IF ls[Len(ls)] = <<>> THEN SubSeq(ls, 1, Len(ls) - 1) ELSE ls
Words(l) == SelectSeq(Split(l, SP), NonEmpty)
(* bytes which nothing this format contains has outside of quotes *)
OddByte(c) == c \in {9, 11, 12, 13}
OddLine(l) == \E i \in 1..Len(l) : OddByte(l[i])

HexVal(c) == IF c >= 97 THEN c - 87 ELSE c - 48
IsHex(c) == IsDigit(c) \/ (c >= 97 /\ c <= 102)
(* a word is plain, or quoted with escapes; anything else is odd *)
RECURSIVE EscOk(_, _)
EscOk(b, i) == IF i > Len(b) THEN TRUE
               ELSE IF b[i] = BSL
                    THEN i + 3 <= Len(b) /\ b[i + 1] = 120 /\ IsHex(b[i + 2]) /\ IsHex(b[i + 3]) /\ EscOk(b, i + 4)
               ELSE b[i] \notin {QUOTE, 39} /\ EscOk(b, i + 1)
Inner(w) == SubSeq(w, 2, Len(w) - 1)
Quoted(w) == Len(w) >= 2 /\ w[1] = QUOTE /\ w[Len(w)] = QUOTE
OddWord(w) == IF Quoted(w) THEN ~EscOk(Inner(w), 1)
              ELSE \E i \in 1..Len(w) : w[i] \in {QUOTE, 39, BSL}
RECURSIVE UnescAt(_, _)
UnescAt(b, i) == IF i > Len(b) THEN <<>>
                 ELSE IF b[i] = BSL THEN <<HexVal(b[i + 2]) * 16 + HexVal(b[i + 3])>> \o UnescAt(b, i + 4)
                 ELSE <<b[i]>> \o UnescAt(b, i + 1)
Value(w) == IF Quoted(w) THEN UnescAt(Inner(w), 1) ELSE w

AllDigits(w) == w # <<>> /\ \A i \in 1..Len(w) : IsDigit(w[i])
PlusDigits(w) == Len(w) > 1 /\ w[1] = 43 /\ AllDigits(Tail(w))
TooBig(w) == CmpLimbs(LimbsFrom(w), MaxU64) > 0
UnHex(w) == [i \in 1..(Len(w) \div 2) |-> HexVal(w[2 * i - 1]) * 16 + HexVal(w[2 * i])]
GoodHex(w) == Len(w) % 2 = 0 /\ \A i \in 1..Len(w) : IsHex(w[i])

(* the outcome of reading one part: [v |-> value], [e |-> errors] or loose *)
Got(x) == [o |-> "got", v |-> x, e |-> {}]
Bad(es) == [o |-> "err", v |-> <<>>, e |-> es]
Loose == [o |-> "loose", v |-> <<>>, e |-> {}]

(* line number i must start with keyword kw; then f(words) *)
HasLine(ls, i) == i <= Len(ls)
(* (the names of keywords are given as strings too: errors carry them) *)
(* (a reader may skip a blank line, but only to find what is required)       *)
BlankLine(l) == \A i \in 1..Len(l) : l[i] = SP
NextReal(ls, i) == LET js == {j \in i..Len(ls) : ~BlankLine(ls[j])} IN
                   IF js = {} THEN 0 ELSE CHOOSE j \in js : \A k \in js : j <= k
NotThis(w, kw, name) == Bad({Missing(name)} \cup (IF IsUtf8(w) THEN {} ELSE {UtfErr}))
LineWith(ls, i, kw, name) ==
  IF ~HasLine(ls, i) THEN Bad({Eof})
  ELSE IF OddLine(ls[i]) THEN Loose
  ELSE IF BlankLine(ls[i]) THEN
    LET j == NextReal(ls, i) IN
    IF j = 0 THEN (IF kw = VolKw THEN Loose ELSE Bad({Eof, Missing(name)}))
    ELSE IF OddLine(ls[j]) \/ Words(ls[j])[1] = kw THEN Loose
    ELSE LET r == NotThis(Words(ls[j])[1], kw, name) IN Bad(r.e \cup {Eof, Missing(name)})
  ELSE LET w == Words(ls[i]) IN IF w[1] # kw THEN NotThis(w[1], kw, name) ELSE Got(w)

TextLine(ls, i, kw, name, utf) ==
  LET r == LineWith(ls, i, kw, name) IN
  IF r.o # "got" THEN r
  ELSE IF Len(r.v) = 1 THEN Got(<<>>)                  \* nothing: the empty text
  ELSE IF Len(r.v) > 2 \/ OddWord(r.v[2]) THEN Loose
  ELSE IF utf /\ ~IsUtf8(Value(r.v[2])) THEN Bad({UtfErr})
  ELSE Got(Value(r.v[2]))

VolLine(ls, i) ==
  LET r == LineWith(ls, i, VolKw, "Volume") IN
  IF r.o # "got" THEN r
  ELSE IF Len(r.v) = 1 THEN Bad({IntErr})
  ELSE IF Len(r.v) > 2 \/ OddWord(r.v[2]) \/ Quoted(r.v[2]) THEN Loose
  ELSE LET w == r.v[2]
           d == IF w[Len(w)] = 58 THEN SubSeq(w, 1, Len(w) - 1) ELSE w IN
       IF d = w /\ AllDigits(w) THEN Loose                 \* the colon is missing
       ELSE IF ~IsUtf8(w) THEN Bad({UtfErr, IntErr})
       ELSE IF PlusDigits(d) THEN Loose
       ELSE IF ~AllDigits(d) THEN Bad({IntErr})
       ELSE IF TooBig(d) THEN Bad({IntErr, OrderErr})
       ELSE Got(LimbsFrom(d))

PathLine(ls, i, kw, name) ==
  LET r == LineWith(ls, i, kw, name) IN
  IF r.o # "got" THEN r
  ELSE IF Len(r.v) = 1 THEN Bad({<<"MissingPath", "">>})
  ELSE IF OddWord(r.v[2]) \/ Len(r.v) > 3 THEN Loose
  ELSE IF Len(r.v) = 2 THEN Got(<<Value(r.v[2]), None>>)
  ELSE LET w == r.v[3] IN
       IF ~IsUtf8(w) THEN Bad({UtfErr, IntErr})
       ELSE IF PlusDigits(w) THEN Loose
       ELSE IF ~AllDigits(w) \/ TooBig(w) THEN Bad({IntErr})
       ELSE Got(<<Value(r.v[2]), Some(LimbsFrom(w))>>)

HashLine(ls, i) ==
  LET r == LineWith(ls, i, HashKw, "Hash") IN
  IF r.o # "got" THEN r
  ELSE IF Len(r.v) = 1 THEN Bad({<<"MissingHashType", "">>})
  ELSE LET e == (IF IsUtf8(r.v[2]) THEN {} ELSE {UtfErr})
                \cup (IF Len(r.v) = 2 THEN {<<"MissingHash", "">>} ELSE {}) IN
       IF e # {} THEN Bad(e)
       ELSE IF Len(r.v) > 3 \/ ~GoodHex(r.v[3]) \/ OddWord(r.v[2]) \/ Quoted(r.v[2]) THEN Loose
       ELSE Got(<<r.v[2], UnHex(r.v[3])>>)

(* several parts in a row: the first that is not there decides *)
First(rs0) == LET rs == TLCEval(rs0)
                  bad == {i \in 1..Len(rs) : rs[i].o # "got"} IN
              IF bad = {} THEN Got([i \in 1..Len(rs) |-> rs[i].v])
              ELSE rs[CHOOSE i \in bad : \A j \in bad : i <= j]

(* the volume that starts at line i and should be number n *)
VolAt(ls, i, n) ==
  LET num == VolLine(ls, i)
      r == First(<<num, PathLine(ls, i + 1, StartKw, "StartingPath"), PathLine(ls, i + 2, EndKw, "EndingPath"),
                   HashLine(ls, i + 3)>>)
      misplaced == num.o = "got" /\ num.v # LimbsOf(n) IN
  IF r.o = "loose" THEN Loose
  ELSE IF r.o = "err" THEN Bad(r.e \cup (IF misplaced THEN {OrderErr} ELSE {}))
  ELSE IF misplaced THEN Bad({OrderErr})
  ELSE Got([s |-> r.v[2][1], sb |-> r.v[2][2], e |-> r.v[3][1], eb |-> r.v[3][2], ht |-> r.v[4][1], h |-> r.v[4][2]])

(* The volumes from line i on, n of which have been read.  Empty lines may    *)
(* separate volumes: the lines up to the next one are four for each volume.   *)
NextEmpty(ls, i) == LET es == {j \in i..Len(ls) : ls[j] = <<>>} IN
                    IF es = {} THEN Len(ls) + 1 ELSE CHOOSE j \in es : \A k \in es : j <= k
RECURSIVE VolsFrom(_, _, _)
VolsFrom(ls, i, n) ==
  IF ~HasLine(ls, i) THEN Got(<<>>)
  ELSE IF ls[i] = <<>> THEN VolsFrom(ls, i + 1, n)
  ELSE LET stop == NextEmpty(ls, i)
           m == (stop - i + 3) \div 4
           r == First([k \in 1..m |-> VolAt(ls, i + 4 * (k - 1), n + k)]) IN
       IF r.o # "got" THEN r
       ELSE LET rest == VolsFrom(ls, stop, n + m) IN
            IF rest.o # "got" THEN rest ELSE Got(r.v \o rest.v)

Read(b) ==
  LET ls == LinesOf(b)
      r == First(<<TextLine(ls, 1, HostKw, "Hostname", TRUE), TextLine(ls, 2, DirKw, "Localdir", FALSE)>>)
      vs == VolsFrom(ls, 3, 0)
      nvol == Cardinality({i \in 1..Len(ls) : Words(ls[i]) # <<>> /\ Words(ls[i])[1] = VolKw})
  IN IF r.o = "err" THEN [k |-> "err", errs |-> r.e]
     ELSE IF r.o = "loose" \/ vs.o = "loose" THEN [k |-> "loose", nvol |-> nvol]
     ELSE IF vs.o = "err" THEN [k |-> "err", errs |-> vs.e]
     ELSE [k |-> "ok", m |-> [host |-> r.v[1], dir |-> r.v[2], vols |-> vs.v]]

(* --------- what a reader may answer (x: the executor's projection) ------- *)
VolAgrees(v, x) ==
  /\ Len(x) = 1
  /\ x[1].s = v.s /\ x[1].sp = Some(v.s) /\ x[1].sb = v.sb
  /\ x[1].e = v.e /\ x[1].ep = Some(v.e) /\ x[1].eb = v.eb
  /\ x[1].ht = v.ht /\ x[1].h = v.h
ManAgrees(m, x) ==
  /\ x.host = m.host /\ x.dir = Some(m.dir)
  /\ x.n = Len(m.vols) /\ Len(x.vols) = Len(m.vols)
  /\ \A i \in 1..Len(m.vols) : VolAgrees(m.vols[i], x.vols[i])
  /\ \A i \in 1..Len(x.none) : ~x.none[i]
(* res: [ok, err] or [ok, m] *)
Admits(r, res) ==
  CASE r.k = "ok" -> res.ok /\ ManAgrees(r.m, res.m)
    [] r.k = "err" -> ~res.ok /\ \E e \in r.errs : res.err = e
    [] r.k = "loose" -> res.ok => res.m.n = r.nvol
=============================================================================
