------------------------------ MODULE Instants -----------------------------
(* Instants are <<day, second of day>>, day 0 being 1970-01-01 UTC.           *)
EXTENDS Integers
TLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
TLeq(a, b) == a = b \/ TLess(a, b)
=============================================================================
