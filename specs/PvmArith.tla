------------------------------ MODULE PvmArith ------------------------------
(* 64-bit machine words as sequences of eight octets, least significant first, and the arithmetic on them. *)
EXTENDS Integers, Sequences, Bitwise

Zero == <<0, 0, 0, 0, 0, 0, 0, 0>>
One == <<1, 0, 0, 0, 0, 0, 0, 0>>
Ones == <<255, 255, 255, 255, 255, 255, 255, 255>>
(* the word of a number below 2^31 *)
W(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216, 0, 0, 0, 0>>
Bool(b) == IF b THEN One ELSE Zero

WNot(a) == <<255 - a[1], 255 - a[2], 255 - a[3], 255 - a[4], 255 - a[5], 255 - a[6], 255 - a[7], 255 - a[8]>>
WAnd(a, b) == <<a[1] & b[1], a[2] & b[2], a[3] & b[3], a[4] & b[4], a[5] & b[5], a[6] & b[6], a[7] & b[7], a[8] & b[8]>>
WOr(a, b) == <<a[1] | b[1], a[2] | b[2], a[3] | b[3], a[4] | b[4], a[5] | b[5], a[6] | b[6], a[7] | b[7], a[8] | b[8]>>
WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4], a[5] ^^ b[5], a[6] ^^ b[6], a[7] ^^ b[7], a[8] ^^ b[8]>>

AddC(a, b, c) ==
  LET s1 == a[1] + b[1] + c
      s2 == a[2] + b[2] + s1 \div 256
      s3 == a[3] + b[3] + s2 \div 256
      s4 == a[4] + b[4] + s3 \div 256
      s5 == a[5] + b[5] + s4 \div 256
      s6 == a[6] + b[6] + s5 \div 256
      s7 == a[7] + b[7] + s6 \div 256
      s8 == a[8] + b[8] + s7 \div 256
  IN <<s1 % 256, s2 % 256, s3 % 256, s4 % 256, s5 % 256, s6 % 256, s7 % 256, s8 % 256>>
Add(a, b) == AddC(a, b, 0)
Sub(a, b) == AddC(a, WNot(b), 1)
Neg(a) == AddC(Zero, WNot(a), 1)

Hi(a) == a[8] * 65536 + a[7] * 256 + a[6]
Mid(a) == a[5] * 65536 + a[4] * 256 + a[3]
Lo(a) == a[2] * 256 + a[1]
LtU(a, b) == IF Hi(a) # Hi(b) THEN Hi(a) < Hi(b) ELSE IF Mid(a) # Mid(b) THEN Mid(a) < Mid(b) ELSE Lo(a) < Lo(b)
Negative(a) == a[8] >= 128
LtS(a, b) == IF Negative(a) # Negative(b) THEN Negative(a) ELSE LtU(a, b)
Abs(a) == IF Negative(a) THEN Neg(a) ELSE a

Fill(s) == IF s >= 128 THEN 255 ELSE 0
Zext4(a) == <<a[1], a[2], a[3], a[4], 0, 0, 0, 0>>
Sext4(a) == LET f == Fill(a[4]) IN <<a[1], a[2], a[3], a[4], f, f, f, f>>
Sext2(a) == LET f == Fill(a[2]) IN <<a[1], a[2], f, f, f, f, f, f>>
Sext1(a) == LET f == Fill(a[1]) IN <<a[1], f, f, f, f, f, f, f>>
Zext2(a) == <<a[1], a[2], 0, 0, 0, 0, 0, 0>>
(* value of an n-octet number, sign-extended (n = 0: zero) *)
SextN(s) == LET n == Len(s) f == IF n = 0 THEN 0 ELSE Fill(s[n]) IN [i \in 1..8 |-> IF i <= n THEN s[i] ELSE f]
ZextN(s) == [i \in 1..8 |-> IF i <= Len(s) THEN s[i] ELSE 0]

(* the full 128-bit product, sixteen octets *)
RECURSIVE Column(_, _, _, _)
Column(a, b, i, k) == IF i > 8 \/ i > k THEN 0 ELSE (IF k + 1 - i <= 8 THEN a[i] * b[k + 1 - i] ELSE 0) + Column(a, b, i + 1, k)
RECURSIVE Columns(_, _, _, _)
Columns(a, b, k, carry) == IF k > 16 THEN <<>> ELSE LET s == Column(a, b, 1, k) + carry IN <<s % 256>> \o Columns(a, b, k + 1, s \div 256)
MulFull(a, b) == Columns(a, b, 1, 0)
Mul(a, b) == SubSeq(MulFull(a, b), 1, 8)
MulUU(a, b) == SubSeq(MulFull(a, b), 9, 16)
(* two's complement: a signed operand that is negative stands for itself minus 2^64 *)
MulSU(a, b) == LET u == MulUU(a, b) IN IF Negative(a) THEN Sub(u, b) ELSE u
MulSS(a, b) == LET u == MulSU(a, b) IN IF Negative(b) THEN Sub(u, a) ELSE u

(* shifts by n in 0..63 *)
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128>>
Shl(a, n) == LET k == n \div 8 m == Pow2[(n % 8) + 1]
                 at(i) == IF i - k >= 1 THEN a[i - k] ELSE 0
             IN [i \in 1..8 |-> ((at(i) * m) % 256) + ((at(i - 1) * m) \div 256)]
Shr(a, n) == LET k == n \div 8 m == Pow2[(n % 8) + 1]
                 at(i) == IF i + k <= 8 THEN a[i + k] ELSE 0
             IN [i \in 1..8 |-> (at(i) \div m) + (((at(i + 1) % m) * 256) \div m)]
Sar(a, n) == IF Negative(a) THEN WNot(Shr(WNot(a), n)) ELSE Shr(a, n)
RotL(a, n) == IF n = 0 THEN a ELSE WOr(Shl(a, n), Shr(a, 64 - n))
RotR(a, n) == RotL(a, (64 - n) % 64)
RotL32(a, n) == LET z == Zext4(a) IN IF n = 0 THEN Sext4(z) ELSE Sext4(WOr(Shl(z, n), Shr(z, 32 - n)))
RotR32(a, n) == RotL32(a, (32 - n) % 32)
Amount(a) == a[1] % 64
Amount32(a) == a[1] % 32

BitAt(a, i) == (a[(i \div 8) + 1] \div Pow2[(i % 8) + 1]) % 2
(* long division, one bit of the dividend at a time; d is not zero *)
RECURSIVE LongDiv(_, _, _, _, _)
LongDiv(a, d, i, q, r) ==
  IF i < 0 THEN [q |-> q, r |-> r]
  ELSE LET top == r[8] >= 128
           r1 == AddC(r, r, BitAt(a, i))
           fits == top \/ ~LtU(r1, d)
       IN LongDiv(a, d, i - 1, AddC(q, q, IF fits THEN 1 ELSE 0), IF fits THEN Sub(r1, d) ELSE r1)
RECURSIVE Width(_, _)
Width(a, k) == IF k = 0 THEN 0 ELSE IF a[k] # 0 THEN 8 * k ELSE Width(a, k - 1)
DivMod(a, d) == LongDiv(a, d, Width(a, 8) - 1, Zero, Zero)
DivU(a, b) == IF b = Zero THEN Ones ELSE DivMod(a, b).q
RemU(a, b) == IF b = Zero THEN a ELSE DivMod(a, b).r
(* signed division rounds towards zero, the remainder has the dividend's sign *)
DivS(a, b) == IF b = Zero THEN Ones ELSE LET q == DivMod(Abs(a), Abs(b)).q IN IF Negative(a) # Negative(b) THEN Neg(q) ELSE q
RemS(a, b) == IF b = Zero THEN a ELSE LET r == DivMod(Abs(a), Abs(b)).r IN IF Negative(a) THEN Neg(r) ELSE r

RECURSIVE CountBits(_, _)
CountBits(a, n) == IF n = 0 THEN 0 ELSE BitAt(a, n - 1) + CountBits(a, n - 1)
RECURSIVE LeadingZeros(_, _)
LeadingZeros(a, n) == IF n = 0 THEN 0 ELSE IF BitAt(a, n - 1) = 1 THEN 0 ELSE 1 + LeadingZeros(a, n - 1)
RECURSIVE TrailingFrom(_, _, _)
TrailingFrom(a, i, n) == IF i = n THEN n ELSE IF BitAt(a, i) = 1 THEN i ELSE TrailingFrom(a, i + 1, n)
TrailingZeros(a, n) == TrailingFrom(a, 0, n)
Reverse8(a) == <<a[8], a[7], a[6], a[5], a[4], a[3], a[2], a[1]>>

(* a word below 2^31 as a number *)
Small(a) == a[8] = 0 /\ a[7] = 0 /\ a[6] = 0 /\ a[5] = 0 /\ a[4] < 128
NatW(a) == a[1] + 256 * a[2] + 65536 * a[3] + 16777216 * a[4]
Is32(a) == a[8] = 0 /\ a[7] = 0 /\ a[6] = 0 /\ a[5] = 0
=============================================================================
