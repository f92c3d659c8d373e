------------------------------ MODULE Erasure ------------------------------
(* Systematic Reed-Solomon code over the field of 2^16 elements.  With k data words and P the power of two at or above k,
   the code word is given by the polynomial of degree < P that takes the data words at points 0..k-1 and zero at points
   k..P-1; its parity words are the values at points P, P+1, ... *)
EXTENDS Base
RECURSIVE GProd(_, _, _)
GProd(F, k, n) == IF k > n THEN 1 ELSE GMul(F[k], GProd(F, k + 1, n))
RECURSIVE GSum(_, _, _)
GSum(F, k, n) == IF k > n THEN 0 ELSE GXor(F[k], GSum(F, k + 1, n))
(* weight of point j in the value at x, points 0..n-1 *)
Weight(n, j, x) ==
  LET num == GProd([m \in 1..n |-> IF m - 1 = j THEN 1 ELSE GXor(x, m - 1)], 1, n)
      den == GProd([m \in 1..n |-> IF m - 1 = j THEN 1 ELSE GXor(j, m - 1)], 1, n)
  IN GMul(num, GInv(den))
RECURSIVE Pow2Up(_, _)
Pow2Up(p, n) == IF p >= n THEN p ELSE Pow2Up(2 * p, n)
Weights(k, x) == LET p == Pow2Up(1, k) IN
  [j \in 1..k |-> IF x < k THEN (IF x = j - 1 THEN 1 ELSE 0) ELSE Weight(p, j - 1, p + x - k)]
Value_(w, wt) == GSum([j \in DOMAIN w |-> GMul(w[j], wt[j])], 1, Len(w))

Word(s, k) == HexByte(s, 2 * k) + 256 * HexByte(s, 2 * k + 1)
Pad(d, k) == LET n == HexLen(d) IN IF n % (2 * k) = 0 THEN d ELSE d \o HexZero((2 * k) - (n % (2 * k)))
(* shard x (from 0) of data d with k data shards *)
Shard(d, k, x) ==
  LET p == Pad(d, k)
      c == HexLen(p) \div k
      wt == Weights(k, x)
  IN HexCat([t \in 1..(c \div 2) |-> LEnc(Value_([j \in 1..k |-> Word(p, (c \div 2) * (j - 1) + (t - 1))], wt), 2)])
=============================================================================
