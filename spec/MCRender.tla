------------------------------ MODULE MCRender ------------------------------
(* What the layout promises: of every small table the text has one line per   *)
(* row, columns start at the same place in every line, are apart, and the     *)
(* cells can be read back.  Permissions can be read back too.                 *)
EXTENDS Render
CONSTANTS MaxRows, MaxWidth, Bug       \* Bug: "none", "first" (widths of the first row only), "sticky"
VARIABLES tabl, perm
Cell == {[x \in 1..n |-> 97] : n \in 0..MaxWidth}
Rows == UNION {[1..n -> [1..3 -> Cell]] : n \in 0..MaxRows}
Init == tabl \in Rows /\ perm = 0
Next == tabl = <<>> /\ perm < 4095 /\ perm' = perm + 1 /\ UNCHANGED tabl
Spec == Init /\ [][Next]_<<tabl, perm>>
Ws == IF Bug = "first" /\ tabl # <<>> THEN Widths(<<tabl[1]>>) ELSE Widths(tabl)
RECURSIVE StartOf(_, _)
StartOf(w, c) == IF c = 1 THEN 1 ELSE StartOf(w, c - 1) + w[c - 1] + Gap
PadMax(c, w) == IF NumChars(c) >= w THEN c ELSE Padded(c, w)
BugLine(row, w) == Flat([c \in 1..Len(row) |-> IF c <= Len(w) THEN PadMax(row[c], w[c] + Gap) ELSE row[c]])
Lines == IF Bug = "first" THEN [r \in 1..Len(tabl) |-> BugLine(tabl[r], Ws)] ELSE Table(tabl)
Aligned ==
  /\ Len(Lines) = Len(tabl)
  /\ \A r \in 1..Len(tabl) : \A c \in 1..3 :
       LET a == StartOf(Ws, c) IN
       /\ SubSeq(Lines[r], a, a + Len(tabl[r][c]) - 1) = tabl[r][c]
       /\ \A x \in (a + Len(tabl[r][c]))..(IF c < 3 THEN StartOf(Ws, c + 1) - 1 ELSE Len(Lines[r])) : Lines[r][x] = SP
       /\ c < 3 => StartOf(Ws, c + 1) >= a + Len(tabl[r][c]) + Gap
Tight == tabl # <<>> => \A c \in 1..2 : Ws[c] = 2 \/ \E r \in 1..Len(tabl) : NumChars(tabl[r][c]) = Ws[c]
(* letters back to bits *)
Val(t, yes, no) == (IF t[1] = 114 THEN 4 ELSE 0) + (IF t[2] = 119 THEN 2 ELSE 0) + (IF t[3] \in {120, yes} THEN 1 ELSE 0)
Spec1(t, yes, no, v) == IF t[3] \in {yes, no} THEN v ELSE 0
Text9 == IF Bug = "sticky" THEN ModeText(perm % 512) ELSE ModeText(perm)
Back == LET u == SubSeq(Text9, 1, 3)  g == SubSeq(Text9, 4, 6)  o == SubSeq(Text9, 7, 9) IN
  64 * Val(u, 115, 83) + 8 * Val(g, 115, 83) + Val(o, 116, 84)
  + Spec1(u, 115, 83, 2048) + Spec1(g, 115, 83, 1024) + Spec1(o, 116, 84, 512)
Readable == Len(Text9) = 9 /\ Back = perm
(* bits above are not shown *)
High == ModeText(perm + 32768) = ModeText(perm)
=============================================================================
