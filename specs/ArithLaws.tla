------------------------------ MODULE ArithLaws ------------------------------
(* The word arithmetic of the guest machine obeys the laws that define it, on every pair of the words chosen. *)
EXTENDS PvmArith
CONSTANT Bytes
VARIABLES a, b
(* words made of a run of one octet, another octet, and a run of a third *)
Words == {[i \in 1..8 |-> IF i < k THEN x ELSE IF i = k THEN y ELSE z] : x \in Bytes, y \in Bytes, z \in Bytes, k \in {1, 2, 4, 5, 8}}
Init == a \in Words /\ b = Zero
Next == b = Zero /\ b' \in Words /\ UNCHANGED a
Spec == Init /\ [][Next]_<<a, b>>
AddSub == Sub(Add(a, b), b) = a /\ Add(a, Neg(a)) = Zero /\ Add(a, b) = Add(b, a)
(* a = q b + r with r < b *)
Division == b # Zero => LET d == DivMod(a, b) IN Add(Mul(d.q, b), d.r) = a /\ LtU(d.r, b) /\ MulUU(d.q, b) = Zero
SignedDivision == b # Zero => LET q == DivS(a, b) r == RemS(a, b) IN
  /\ Add(Mul(q, b), r) = a
  /\ LtU(Abs(r), Abs(b))
  /\ r = Zero \/ Negative(r) = Negative(a)
(* (a)(b) = (-a)(-b), and the upper halves differ by the usual corrections *)
Product == Mul(a, b) = Mul(b, a) /\ Mul(Neg(a), b) = Neg(Mul(a, b)) /\ MulUU(a, b) = MulUU(b, a) /\ MulSS(a, b) = MulSS(b, a)
           /\ (~Negative(a) => MulSU(a, b) = MulUU(a, b)) /\ (~Negative(b) => MulSS(a, b) = MulSU(a, b))
Order == (LtU(a, b) \/ LtU(b, a) \/ a = b) /\ ~(LtU(a, b) /\ LtU(b, a)) /\ (LtS(a, b) = LtU(WXor(a, <<0, 0, 0, 0, 0, 0, 0, 128>>), WXor(b, <<0, 0, 0, 0, 0, 0, 0, 128>>)))
Shifts == LET n == Amount(b) IN
  /\ Shl(a, n) = Mul(a, Shl(One, n))
  /\ Shr(a, n) = DivU(a, Shl(One, n))
  /\ RotR(RotL(a, n), n) = a
  /\ Sext4(RotL32(a, Amount32(b))) = RotL32(Zext4(a), Amount32(b))
  /\ Negative(Sar(a, n)) = Negative(a)
Counts == CountBits(a, 64) + CountBits(WNot(a), 64) = 64 /\ (a # Zero => Shl(Shr(a, TrailingZeros(a, 64)), TrailingZeros(a, 64)) = a) /\ Shl(a, LeadingZeros(a, 64) % 64)[8] >= (IF a = Zero THEN 0 ELSE 128)
Bits == WXor(a, b) = WOr(WAnd(a, WNot(b)), WAnd(WNot(a), b)) /\ Reverse8(Reverse8(a)) = a
=============================================================================
