-------------------------------- MODULE Render ------------------------------
(* Listings as text: a table of cells becomes one line per row, every column  *)
(* as wide as its widest cell and two more.                                   *)
EXTENDS Zones

Gap == 2
Blank(n) == [x \in 1..n |-> SP]
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Padded(c, w) == c \o Blank(w - NumChars(c))
RightIn(c, w) == IF NumChars(c) >= w THEN c ELSE Blank(w - NumChars(c)) \o c
LeftIn(c, w) == IF NumChars(c) >= w THEN c ELSE Padded(c, w)
(* rows: sequence of sequences of cells, all of the same length *)
Widths(rows) == IF rows = <<>> THEN <<>>
                ELSE TLCEval([c \in 1..(Len(rows[1]) - 1) |-> MaxOf({2} \cup {NumChars(rows[r][c]) : r \in 1..Len(rows)})])
LineOf(row, w) == Flat([c \in 1..Len(row) |-> IF c <= Len(w) THEN Padded(row[c], w[c] + Gap) ELSE row[c]])
Table(rows) == LET w == Widths(rows) IN [r \in 1..Len(rows) |-> LineOf(rows[r], w)]
Tabbed(row) == JoinWith(row, <<TAB>>)

(* -------------------------------- entries -------------------------------- *)
Unknown == <<63>>
TypeChar(ty) == CASE ty[1] \in {"File", "HardLink"} -> <<45>>
                  [] ty[1] = "Dir" -> <<100>>
                  [] ty[1] = "SymLink" -> <<108>>
                  [] ty[1] = "Fifo" -> <<112>>
                  [] ty[1] = "Unknown" -> <<63>>
Bit(m, n) == (m \div n) % 2 = 1
(* one class of three bits; sp: its special bit, with letters for it *)
Trio(b, sp, yes, no) == <<IF Bit(b, 4) THEN 114 ELSE 45, IF Bit(b, 2) THEN 119 ELSE 45,
                          IF sp THEN (IF Bit(b, 1) THEN yes ELSE no) ELSE IF Bit(b, 1) THEN 120 ELSE 45>>
ModeText(m) == Trio((m \div 64) % 8, Bit(m, 2048), 115, 83) \o Trio((m \div 8) % 8, Bit(m, 1024), 115, 83)
               \o Trio(m % 8, Bit(m, 512), 116, 84)
(* now is the current year where the text is read *)
LocalTime(t, z, now) == ShowTime(t, OffsetAt(z, t), now)
NatOfLimbs(l) == Limb(l, 1) + 10000 * Limb(l, 2) + (IF Len(l) > 2 THEN 100000000 * (Limb(l, 3) % 16) ELSE 0)
(* x: an entry as the accessors give it *)
Cells(x, z, now) ==
  <<TypeChar(x.ty) \o (IF x.mode = None THEN Unknown ELSE ModeText(NatOfLimbs(x.mode[1]))),
    IF x.un = None THEN Unknown ELSE x.un[1],
    IF x.gn = None THEN Unknown ELSE x.gn[1],
    IF x.sz = None THEN Unknown ELSE DecLimbs(x.sz[1][2]),
    LocalTime(x.t, z, now),
    IF x.p = <<>> THEN <<DOT>> ELSE IF IsUtf8(x.p) THEN x.p ELSE Unknown>>

(* ------------------------------ collections ------------------------------ *)
SetRow(s, z, now) ==
  LeftIn(B(IF s.full THEN "Full" ELSE "Incremental"), 20) \o <<SP>>
  \o LeftIn(LocalTime(s.t1, z, now), 13) \o <<SP>> \o RightIn(Dec(s.nvol), 12)
SetsOf(c) == <<c.full>> \o c.incs
RECURSIVE SumVols(_, _)
SumVols(ss, x) == IF x = 0 THEN 0 ELSE ss[x].nvol + SumVols(ss, x - 1)
ChainLines(c, z, now) ==
  LET ss == SetsOf(c) IN
  <<B("Chain start time: ") \o LocalTime(c.t0, z, now),
    B("Chain end time: ") \o LocalTime(c.t1, z, now),
    B("Number of contained backup sets: ") \o Dec(Len(ss)),
    B("Total number of contained volumes: ") \o Dec(SumVols(ss, Len(ss))),
    LeftIn(B("Type of backup set:"), 20) \o <<SP>> \o LeftIn(B("Time:"), 13) \o <<SP>> \o B("Num volumes:")>>
  \o [x \in 1..Len(ss) |-> SetRow(ss[x], z, now)]
SigLines(c, z, now) ==
  <<B("start time: ") \o LocalTime(c.t0, z, now) \o B(", end time: ") \o LocalTime(c.t1, z, now), <<SP>> \o c.full.name>>
  \o [x \in 1..Len(c.incs) |-> <<SP>> \o c.incs[x].name]
=============================================================================
