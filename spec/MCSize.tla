------------------------------- MODULE MCSize -------------------------------
(* What a signature tells about the size of a file: the writer signs a file   *)
(* of any small size, block after block; the bounds the reader may give       *)
(* enclose it, and enclose no more than they must.  The arithmetic of large   *)
(* numbers is checked against that of small ones on the way.                  *)
EXTENDS Session
CONSTANTS MaxSize, MaxBlock
VARIABLES blk,        \* length of a block
          size,       \* bytes written so far
          blocks      \* blocks signed so far
zvars == <<blk, size, blocks>>
Init == blk \in 1..MaxBlock /\ size = 0 /\ blocks = 0
(* the next byte goes into the block that is open, or opens one *)
Next == size < MaxSize /\ size' = size + 1 /\ blocks' = (IF size % blk = 0 THEN blocks + 1 ELSE blocks)
        /\ UNCHANGED blk
Spec == Init /\ [][Next]_zvars
Big(n) == LimbsOf(n)
Sig == [k |-> "sig", blk |-> Big(blk), n |-> Big(blocks)]
Hint(lo, hi) == <<<<Big(lo), Big(hi)>>>>
Leq(a, b) == CmpLimbs(a, b) <= 0
Encloses == Leq(SigMin(Sig), Big(size)) /\ Leq(Big(size), SigMax(Sig))
(* other sizes with the same signature are enclosed as well, no bound can be closer *)
Tight == blocks > 0 => SigMin(Sig) = Big((blocks - 1) * blk + 1) /\ SigMax(Sig) = Big(blocks * blk)
(* what SizeOk lets pass: exactly the bounds that enclose every such size, at most one block apart *)
Judged == \A lo \in {x \in (size - blk - 1)..(size + 1) : x >= 0}, hi \in size..(size + blk + 1) :
  SizeOk(Sig, Hint(lo, hi)) <=>
    /\ \A x \in (IF blocks = 0 THEN {0} ELSE ((blocks - 1) * blk + 1)..(blocks * blk)) : lo <= x /\ x <= hi
    /\ hi - lo <= blk
Arith == \A f \in {1, 250, 9999, 10000, 99999} : \A g \in {0, 1, 9999} :
  /\ MulLimbs(Big(blk * f), Big(blocks)) = Big(blk * f * blocks)
  /\ AddLimbs(Big(blk * f), Big(size + g)) = Big(blk * f + size + g)
  /\ size + g <= blk * f => SubLimbs(Big(blk * f), Big(size + g)) = Big(blk * f - size - g)
  /\ Leq(Big(blk * f), Big(size + g)) = (blk * f <= size + g)
(* planted: the last block taken for a full one *)
FullBlocks(z) == MulLimbs(z.blk, z.n)
(* planted: a block forgotten *)
OneLess(z) == IF z.n = <<>> THEN <<>> ELSE MulLimbs(z.blk, SubLimbs(z.n, <<1>>))
=============================================================================
