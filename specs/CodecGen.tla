------------------------------- MODULE CodecGen -------------------------------
(* Encodings made from the layouts, some of them damaged, for the real decoders. *)
EXTENDS Codec, Json, IOUtils, Emit
CONSTANTS Depth
VARIABLES log, n
R(S) == RandomElement(S)
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE HexCat(s)
Noise(k) == HexCat([i \in 1..((k + 31) \div 32) |-> HexSub(Blake(LEnc(R(0..1000000000), 4)), 0, IF 32 * i <= k THEN 32 ELSE k - 32 * (i - 1))])
Octets(k) == IF k = 0 THEN "" ELSE LET d == R(1..12) IN IF d = 1 THEN HexZero(k) ELSE Noise(k)
Sizes == {"0", "1", "127", "128", "16383", "16384", "2097151", "2097152", "268435455", "268435456", "34359738367", "34359738368", "4398046511103", "4398046511104",
          "562949953421311", "562949953421312", "72057594037927935", "72057594037927936", "18446744073709551615", "255", "65535", "4294967295"}
Number(max) == LET v == IF R(1..3) = 1 THEN R(Sizes) ELSE LEBig(Octets(R(1..8))) IN IF BLE(v, max) THEN v ELSE BMod(v, BAdd(max, "1"))
Count(max) == LET v == R({0, 0, 1, 1, 2, 3}) IN IF BLT(max, ToString(v)) THEN ToInt(max) ELSE IF R(1..12) = 1 /\ BLE(max, "30") THEN ToInt(max) + R({0, 0, 1}) ELSE v
RECURSIVE Climb(_, _)
Climb(S, lt) == IF S = {} THEN <<>> ELSE LET z == CHOOSE z \in S : \A w \in S : z = w \/ (IF lt THEN BLT(LEBig(z), LEBig(w)) ELSE HexLT(z, w)) IN <<z>> \o Climb(S \ {z}, lt)
RECURSIVE Make(_)
Several(t, k) == Cat([i \in 1..k |-> Make(t)])
Keysets(t, k) == IF t.k = "oct" THEN Climb({Octets(32) : i \in 1..k}, FALSE)
                 ELSE LET w == IF t.k = "le" THEN t.n ELSE 4 s == Climb({LEnc(Number(Max32), 4) : i \in 1..k}, TRUE) IN
                      [i \in DOMAIN s |-> IF t.k = "le" THEN s[i] ELSE Compact(LEBig(s[i]))]
MakeBundle ==
  LET item(ni, ls) == HexCat(<<Octets(4), Octets(32), Octets(8), Octets(8), Octets(2), Make(Blob), Compact(ni), Several(Import, ni), Compact(Len(ls)),
                               Cat([i \in DOMAIN ls |-> HexCat(<<Octets(32), LEnc(ls[i], 4)>>)])>>)
      n1 == R({0, 1}) n2 == R({0, 0, 1}) l1 == R({<<>>, <<0>>, <<5>>, <<3, 40>>}) l2 == R({<<>>, <<7>>, <<-1>>})
      z == IF l2 = <<-1>> THEN <<R({1000000, 2000000000})>> ELSE l2
      two == R(BOOLEAN)
  IN HexCat(<<Octets(4), Octets(32), Make(Context), Make(Blob), Make(Blob), Compact(IF two THEN 2 ELSE 1), item(n1, l1), IF two THEN item(n2, z) ELSE "",
              Cat([i \in DOMAIN l1 |-> Octets(l1[i])]), IF two /\ l2 # <<-1>> THEN Cat([i \in DOMAIN z |-> Octets(z[i])]) ELSE "",
              IF n1 = 1 THEN Octets(4104) ELSE "", IF two /\ n2 = 1 THEN Octets(4104) ELSE "", IF n1 = 1 THEN Make(Many(Hash)) ELSE "", IF two /\ n2 = 1 THEN Make(Many(Hash)) ELSE "">>)
Make(t) ==
  CASE t.k = "int" -> Compact(Number(t.max))
    [] t.k = "le" -> IF R(1..6) = 1 THEN R({HexZero(t.n), HexCat([i \in 1..t.n |-> "ff"])}) ELSE Octets(t.n)
    [] t.k = "oct" -> Octets(t.n)
    [] t.k = "blob" -> LET k == R({0, 1, 5, 127, 128, 200}) IN HexCat(<<Compact(k), Octets(k)>>)
    [] t.k = "bool" -> R({"00", "01"})
    [] t.k = "seq" -> LET k == Count(t.max) IN HexCat(<<Compact(k), Several(t.t, k)>>)
    [] t.k = "arr" -> Several(t.t, t.n)
    [] t.k = "opt" -> IF R(BOOLEAN) THEN "00" ELSE HexCat(<<"01", Make(t.t)>>)
    [] t.k = "rec" -> Cat([i \in DOMAIN t.ts |-> Make(t.ts[i])])
    [] t.k = "set" -> LET s == Keysets(t.t, R({0, 1, 2, 4})) IN HexCat(<<Compact(Len(s)), Cat(s)>>)
    [] t.k = "map" -> LET s == Keysets(t.t, R({0, 1, 2, 4})) IN HexCat(<<Compact(Len(s)), Cat([i \in DOMAIN s |-> HexCat(<<s[i], Make(t.u)>>)])>>)
    [] t.k = "ordered" -> LET s == Keysets(Hash, R({0, 1, 3, t.max})) IN HexCat(<<Compact(Len(s)), Cat([i \in DOMAIN s |-> HexCat(<<s[i], Make(t.t.ts[2])>>)])>>)
    [] t.k = "tag" -> LET d == R(DOMAIN t.f) IN HexCat(<<IF t.raw THEN LEnc(d, 1) ELSE Compact(d), Make(t.f[d])>>)
    [] t.k = "bits" -> LET z == R(0..(2 ^ t.n - 1)) IN LEnc(z, (t.n + 7) \div 8)
    [] t.k = "anybits" -> LET k == R({0, 1, 7, 8, 9, 20}) IN HexCat(<<Compact(k), IF k = 0 THEN "" ELSE LEnc(R(0..(2 ^ k - 1)), (k + 7) \div 8)>>)
    [] t.k = "rest" -> Octets(R({0, 1, 40}))
    [] t.k = "bundle" -> MakeBundle
Bad == {"ff", "80", "c0", "fe", "00", "02", "ffffffffffffffffff", "fe00000000000001", "f0ffffff0f", "ff00000000000000ff", "8000", "ff0000000001000000", "e0000010"}
Damage(h) ==
  LET len == HexLen(h) at == R(0..len) d == R(1..10) near == R(0..(IF len < 40 THEN len ELSE 40)) IN
  CASE d <= 4 -> h
    [] d = 5 -> HexSub(h, 0, at)
    [] d = 6 -> IF at = len THEN h ELSE HexCat(<<HexSub(h, 0, at), R(Bad), HexSub(h, at + 1, len)>>)
    [] d = 7 -> IF near = len THEN h ELSE HexCat(<<HexSub(h, 0, near), R(Bad), HexSub(h, near + 1, len)>>)
    [] d = 8 -> HexCat(<<HexSub(h, 0, at), Octets(R(1..9)), HexSub(h, at, len)>>)
    [] d = 9 -> HexCat(<<h, Octets(R(1..5))>>)
    [] d = 10 -> IF R(1..2) = 1 THEN R(Bad) ELSE HexCat(<<R(Bad), h>>)
Names == DOMAIN Layouts
Init == log = <<>> /\ n = 0
Next == n < Depth /\ LET t == R(Names) m == Make(Layouts[t]) h == Damage(m) IN log' = Append(log, [t |-> t, h |-> h]) /\ n' = n + 1
Spec == Init /\ [][Next]_<<log, n>>
Done == n = Depth => EmitOnce(IOEnv.GEN_OUT, ToJson(log))
=============================================================================
