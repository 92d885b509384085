-------------------------------- MODULE Text --------------------------------
(* Byte strings (sequences of 0..255), paths, decimal numbers and unbounded  *)
(* naturals.  TLC integers have 32 bits, so machine integers that may be     *)
(* larger are little-endian sequences of base-10000 limbs without leading    *)
(* zero limbs (0 is the empty sequence).                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
(* (TLCEval: TLC would otherwise evaluate the function again at every use) *)
CharCode == TLCEval([c \in {SubSeq(Printable, i, i) : i \in 1..95} |->
                31 + (CHOOSE i \in 1..95 : SubSeq(Printable, i, i) = c)])

(* the bytes of a TLA+ string literal *)
B(s) == TLCEval([i \in 1..Len(s) |-> CharCode[SubSeq(s, i, i)]])

NL == 10  CR == 13  SP == 32  TAB == 9  DOT == 46  SLASH == 47  QUOTE == 34  BSL == 92

IsDigit(c) == c >= 48 /\ c <= 57
LowerByte(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Lower(b) == TLCEval([i \in 1..Len(b) |-> LowerByte(b[i])])

(* b has p at position i (1-based) *)
At(b, i, p) == /\ i >= 1 /\ i + Len(p) - 1 <= Len(b)
               /\ \A k \in 1..Len(p) : b[i + k - 1] = p[k]
StartsWith(b, p) == At(b, 1, p)
EndsWith(b, p) == At(b, Len(b) - Len(p) + 1, p)
From(b, i) == SubSeq(b, i, Len(b))
HasSub(b, p) == \E i \in 1..Len(b) : At(b, i, p)

(* -1, 0, 1: the order of byte strings *)
RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, i) ==
  IF i > Len(a) THEN IF i > Len(b) THEN 0 ELSE -1
  ELSE IF i > Len(b) THEN 1
  ELSE IF a[i] < b[i] THEN -1
  ELSE IF a[i] > b[i] THEN 1
  ELSE CmpAt(a, b, i + 1)
CmpBytes(a, b) == CmpAt(a, b, 1)

(* split at every occurrence of a byte; n occurrences give n+1 pieces *)
Split(b, c) ==
  LET at == <<0>> \o SelectSeq([i \in 1..Len(b) |-> i], LAMBDA i : b[i] = c) \o <<Len(b) + 1>> IN
  TLCEval([k \in 1..(Len(at) - 1) |-> SubSeq(b, at[k] + 1, at[k + 1] - 1)])

NonEmpty(s) == s # <<>>

(* -------- paths: the order of two paths is that of their components ------ *)
Comps(p) == SelectSeq(Split(p, SLASH), NonEmpty)
(* duplicity writes the root as "." in manifests and as "" in signatures *)
RootAsDot == B(".")
Key(p) == IF p = RootAsDot THEN <<>> ELSE Comps(p)

RECURSIVE CmpKeysAt(_, _, _)
CmpKeysAt(a, b, i) ==
  IF i > Len(a) THEN IF i > Len(b) THEN 0 ELSE -1
  ELSE IF i > Len(b) THEN 1
  ELSE LET c == CmpBytes(a[i], b[i]) IN IF c # 0 THEN c ELSE CmpKeysAt(a, b, i + 1)
CmpKeys(a, b) == CmpKeysAt(a, b, 1)
CmpPaths(p, q) == CmpKeys(Key(p), Key(q))

RECURSIVE JoinWith(_, _)
JoinWith(ss, sep) == IF ss = <<>> THEN <<>>
                     ELSE IF Len(ss) = 1 THEN ss[1]
                     ELSE ss[1] \o sep \o JoinWith(Tail(ss), sep)

TextSeq == INSTANCE SequencesExt
Flat(ss) == TextSeq!FlattenSeq(ss)

(* ------------------------------- numbers -------------------------------- *)
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
Pad2(n) == <<48 + (n \div 10), 48 + (n % 10)>>
Pad4(n) == Pad2(n \div 100) \o Pad2(n % 100)
RECURSIVE NatOf(_, _, _)
NatOf(b, i, j) == IF j < i THEN 0 ELSE NatOf(b, i, j - 1) * 10 + (b[j] - 48)

(* limbs *)
RECURSIVE Trim(_)
Trim(l) == IF l = <<>> THEN <<>> ELSE IF l[Len(l)] = 0 THEN Trim(SubSeq(l, 1, Len(l) - 1)) ELSE l
RECURSIVE LimbsOf(_)
LimbsOf(n) == IF n = 0 THEN <<>> ELSE <<n % 10000>> \o LimbsOf(n \div 10000)
(* from decimal digits *)
RECURSIVE LimbsOfDigits(_)
LimbsOfDigits(b) ==
  IF Len(b) = 0 THEN <<>>
  ELSE IF Len(b) <= 4 THEN <<NatOf(b, 1, Len(b))>>
  ELSE <<NatOf(b, Len(b) - 3, Len(b))>> \o LimbsOfDigits(SubSeq(b, 1, Len(b) - 4))
LimbsFrom(b) == Trim(LimbsOfDigits(b))
Limb(l, i) == IF i <= Len(l) THEN l[i] ELSE 0
RECURSIVE CmpLimbsAt(_, _, _)
CmpLimbsAt(a, b, i) == IF i = 0 THEN 0
                       ELSE IF Limb(a, i) < Limb(b, i) THEN -1
                       ELSE IF Limb(a, i) > Limb(b, i) THEN 1
                       ELSE CmpLimbsAt(a, b, i - 1)
CmpLimbs(a, b) == CmpLimbsAt(a, b, IF Len(a) > Len(b) THEN Len(a) ELSE Len(b))
RECURSIVE AddAt(_, _, _, _)
AddAt(a, b, i, c) ==
  IF i > Len(a) /\ i > Len(b) THEN IF c = 0 THEN <<>> ELSE <<c>>
  ELSE LET s == Limb(a, i) + Limb(b, i) + c IN <<s % 10000>> \o AddAt(a, b, i + 1, s \div 10000)
AddLimbs(a, b) == AddAt(a, b, 1, 0)
RECURSIVE SubAt(_, _, _, _)
SubAt(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET s == a[i] - Limb(b, i) - c IN
       IF s < 0 THEN <<s + 10000>> \o SubAt(a, b, i + 1, 1) ELSE <<s>> \o SubAt(a, b, i + 1, 0)
SubLimbs(a, b) == Trim(SubAt(a, b, 1, 0))   \* a >= b
RECURSIVE MulSmallAt(_, _, _, _)
MulSmallAt(a, k, i, c) ==
  IF i > Len(a) THEN LimbsOf(c)
  ELSE LET s == a[i] * k + c IN <<s % 10000>> \o MulSmallAt(a, k, i + 1, s \div 10000)
MulSmall(a, k) == Trim(MulSmallAt(a, k, 1, 0))  \* 0 <= k < 10000
RECURSIVE MulLimbs(_, _)
MulLimbs(a, b) == IF b = <<>> THEN <<>>
                  ELSE Trim(AddLimbs(MulSmall(a, b[1]), IF MulLimbs(a, Tail(b)) = <<>> THEN <<>>
                                                        ELSE <<0>> \o MulLimbs(a, Tail(b))))
RECURSIVE DecLimbsAt(_, _)
DecLimbsAt(l, i) == IF i = 0 THEN <<>> ELSE Pad4(l[i]) \o DecLimbsAt(l, i - 1)
DecLimbs(l) == IF l = <<>> THEN <<48>> ELSE Dec(l[Len(l)]) \o DecLimbsAt(l, Len(l) - 1)

MaxU64 == LimbsFrom(B("18446744073709551615"))

(* is b well-formed UTF-8?  (RFC 3629: no overlong forms, no surrogates) *)
Cont(b, i) == i <= Len(b) /\ b[i] >= 128 /\ b[i] <= 191
RECURSIVE Utf8At(_, _)
Utf8At(b, i) ==
  IF i > Len(b) THEN TRUE
  ELSE LET c == b[i] IN
    IF c < 128 THEN Utf8At(b, i + 1)
    ELSE IF c >= 194 /\ c <= 223 THEN Cont(b, i + 1) /\ Utf8At(b, i + 2)
    ELSE IF c >= 224 /\ c <= 239 THEN
      /\ Cont(b, i + 1) /\ Cont(b, i + 2)
      /\ (c = 224 => b[i + 1] >= 160) /\ (c = 237 => b[i + 1] <= 159)
      /\ Utf8At(b, i + 3)
    ELSE IF c >= 240 /\ c <= 244 THEN
      /\ Cont(b, i + 1) /\ Cont(b, i + 2) /\ Cont(b, i + 3)
      /\ (c = 240 => b[i + 1] >= 144) /\ (c = 244 => b[i + 1] <= 143)
      /\ Utf8At(b, i + 4)
    ELSE FALSE
IsUtf8(b) == (\A i \in 1..Len(b) : b[i] < 128) \/ Utf8At(b, 1)
(* number of characters of a well-formed UTF-8 string *)
IsLead(c) == c < 128 \/ c > 191
NumChars(b) == Cardinality({i \in 1..Len(b) : IsLead(b[i])})

(* options, as the executor projects them *)
None == <<>>
Some(x) == <<x>>

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
=============================================================================
