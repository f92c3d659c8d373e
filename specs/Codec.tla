-------------------------------- MODULE Codec --------------------------------
(* The layout of every encoded value, as data, and what a string of octets stands for under a layout.
   A value is written out as text: numbers in decimal, octets in hexadecimal, [ ] around the parts of anything compound. *)
EXTENDS Prim, FiniteSets, TLC
CONSTANTS V, C, E, Q, H, O, L, Super, MaxItems
Max8 == "255"
Max16 == "65535"
Max32 == "4294967295"
Max64 == "18446744073709551615"

Num(m) == [k |-> "int", max |-> m]            \* variable length, shortest form
LE(n) == [k |-> "le", n |-> n]                \* n octets, least significant first
Oct(n) == [k |-> "oct", n |-> n]
Blob == [k |-> "blob"]
Bool == [k |-> "bool"]
Most(t, m) == [k |-> "seq", t |-> t, max |-> m]
Many(t) == Most(t, Max64)
Arr(t, n) == [k |-> "arr", t |-> t, n |-> n]
Opt(t) == [k |-> "opt", t |-> t]
Rec(ts) == [k |-> "rec", ts |-> ts]
SetOf(t) == [k |-> "set", t |-> t]            \* ascending
MapOf(t, u) == [k |-> "map", t |-> t, u |-> u]
Tag(raw, f) == [k |-> "tag", raw |-> raw, f |-> f]
Bits(n) == [k |-> "bits", n |-> n]
AnyBits == [k |-> "anybits"]
Rest == [k |-> "rest"]
Ordered(t, m) == [k |-> "ordered", t |-> t, max |-> m]
Unit == Rec(<<>>)

Hash == Oct(32)
Pair(a, b) == Rec(<<a, b>>)
Ticket == Pair(Hash, Num(Max8))
Tickets(n) == Arr(Ticket, n)
EpochMark == Rec(<<Hash, Hash, Arr(Pair(Hash, Hash), V)>>)
Header == Rec(<<Hash, Hash, Hash, LE(4), Opt(EpochMark), Opt(Tickets(E)), LE(2), Oct(96), Many(Hash), Oct(96)>>)
Specs == Rec(<<Hash, LE(4), Hash, Hash, LE(2)>>)
Context == Rec(<<Hash, Hash, Hash, Hash, LE(4), SetOf(Hash)>>)
Result == Tag(FALSE, [d \in {"0", "1", "2", "3", "4", "5", "6"} |-> IF d = "0" THEN Blob ELSE Unit])
Load == Rec(<<Num(Max64), Num(Max16), Num(Max16), Num(Max32), Num(Max16)>>)
Digest == Rec(<<LE(4), Hash, Hash, LE(8), Result, Load>>)
Report == Rec(<<Specs, Context, Num(Max16), Hash, Num(Max64), Blob, MapOf(Hash, Hash), Most(Digest, MaxItems)>>)
Import == Pair(Hash, LE(2))
Item == Rec(<<LE(4), Hash, LE(8), LE(8), LE(2), Blob, Many(Import), Many(Pair(Hash, LE(4)))>>)
Package == Rec(<<LE(4), Hash, Context, Blob, Blob, Most(Item, MaxItems)>>)
Credential == Pair(LE(2), Oct(64))
Guarantee == Rec(<<Report, LE(4), Many(Credential)>>)
Assurance == Rec(<<Hash, Bits(C), LE(2), Oct(64)>>)
Verdict == Rec(<<Hash, LE(4), Arr(Rec(<<Bool, LE(2), Oct(64)>>), Super)>>)
Culprit == Rec(<<Hash, Hash, Oct(64)>>)
Fault == Rec(<<Hash, Bool, Hash, Oct(64)>>)
Disputes == Rec(<<Many(Verdict), Many(Culprit), Many(Fault)>>)
TicketXt == Pair(Num(Max8), Oct(784))
Preimage == Pair(LE(4), Blob)
Extrinsics == Rec(<<Many(TicketXt), Many(Preimage), Most(Guarantee, ToString(C)), Most(Assurance, ToString(V)), Disputes>>)
Block == Pair(Header, Extrinsics)
Key == Rec(<<Hash, Hash, Oct(144), Oct(128)>>)
Keys == Arr(Key, V)
Sealers == Tag(FALSE, [d \in {"0", "1"} |-> IF d = "0" THEN Tickets(E) ELSE Arr(Hash, E)])
Peaks == Many(Opt(Hash))
Past == Rec(<<Hash, Hash, Hash, Many(Pair(Hash, Hash))>>)
Output == Pair(LE(4), Hash)
Activity == Arr(LE(4), 6)
CoreLoad == Rec(<<Num(Max32), Num(Max16), Num(Max16), Num(Max16), Num(Max32), Num(Max16), Num(Max32), Num(Max64)>>)
ServiceLoad == Rec(<<Num(Max16), Num(Max32), Num(Max32), Num(Max64), Num(Max32), Num(Max32), Num(Max32), Num(Max32), Num(Max32), Num(Max64)>>)
Version == Arr(LE(1), 3)
State == Many(Pair(Oct(31), Blob))
Opening == Rec(<<Header, State, Most(Pair(LE(4), Hash), ToString(L))>>)
PeerOf(b) == Rec(<<LE(1), LE(4), Version, Version, b>>)
MessageOf(b) == Tag(TRUE, [d \in {"0", "1", "2", "3", "4", "5", "255"} |->
  CASE d = "0" -> PeerOf(b) [] d = "1" -> Opening [] d = "2" -> Hash [] d = "3" -> Block [] d = "4" -> Hash [] d = "5" -> State [] OTHER -> b])
Peer == PeerOf(Blob)
Message == MessageOf(Blob)
\* known finding: names and error texts of the conformance protocol are read and written as sequences of compact integers
Loose == [k |-> "loose"]
KnownLayouts == [Peer |-> PeerOf(Loose), Message |-> MessageOf(Loose)]

Layouts == [
  u8 |-> Num(Max8), u16 |-> Num(Max16), u32 |-> Num(Max32), u64 |-> Num(Max64), bool |-> Bool, ints |-> Many(Num(Max32)), option |-> Opt(Num(Max32)),
  pairs |-> MapOf(Num(Max32), Num(Max64)), set |-> SetOf(Num(Max32)), array |-> Arr(Num(Max16), 3), three |-> Rec(<<Num(Max8), Opt(Bool), Many(Num(Max64))>>), bits |-> AnyBits,
  octets |-> Blob,
  Header |-> Header, Block |-> Block, Extrinsics |-> Extrinsics, Report |-> Report, Digest |-> Digest, Package |-> Package, Item |-> Item, Context |-> Context,
  Specs |-> Specs, Guarantee |-> Guarantee, Assurance |-> Assurance, Disputes |-> Disputes, Verdict |-> Verdict, TicketXt |-> TicketXt, Preimage |-> Preimage,
  EpochMark |-> EpochMark, Ticket |-> Ticket, Result |-> Result,
  AuthPool |-> Arr(Most(Hash, ToString(O)), C), AuthQueue |-> Arr(Arr(Hash, Q), C),
  History |-> Pair(Most(Past, ToString(H)), Peaks), Safrole |-> Rec(<<Keys, Oct(144), Sealers, Ordered(Ticket, E)>>),
  Judged |-> Rec(<<Many(Hash), Many(Hash), Many(Hash), Many(Hash)>>), Entropy |-> Arr(Hash, 4), Staging |-> Keys, Active |-> Keys, Before |-> Keys,
  Pending |-> Arr(Opt(Pair(Report, LE(4))), C), Slot |-> LE(4),
  Privileges |-> Rec(<<LE(4), Arr(LE(4), C), LE(4), LE(4), MapOf(Num(Max32), Num(Max64))>>),
  Statistics |-> Rec(<<Arr(Activity, V), Arr(Activity, V), Arr(CoreLoad, C), MapOf(LE(4), ServiceLoad)>>),
  Ready |-> Arr(Many(Pair(Report, SetOf(Hash))), E), Accumulated |-> Arr(SetOf(Hash), E), Outputs |-> Many(Output),
  Account |-> Rec(<<Num(Max8), Hash, LE(8), LE(8), LE(8), LE(8), LE(8), LE(4), LE(4), LE(4), LE(4)>>),
  Slots |-> Most(LE(4), "3"), Item0 |-> Rest, Code |-> Pair(Blob, Rest),
  Message |-> Message, Peer |-> Peer, State |-> State, Opening |-> Opening,
  Ask |-> Rec(<<Hash, Bool, Num(Max32)>>), Answer |-> Many(Block), Announce |-> Rec(<<Header, Hash, Num(Max32)>>),
  Bundle |-> [k |-> "bundle"] ]

(* --------------------------------------------------------------- reading *)
(* c: the parts; odd: octets no encoder writes, about which nothing is said *)
Fail(odd) == [ok |-> FALSE, n |-> 0, s |-> "", odd |-> odd, c |-> <<>>]
Val(n, s, odd, c) == [ok |-> TRUE, n |-> n, s |-> s, odd |-> odd, c |-> c]
Left(h, at) == HexLen(h) - at
Pow == <<0, 128, 192, 224, 240, 248, 252, 254, 255>>
ReadInt(h, at) ==
  IF Left(h, at) < 1 THEN Fail(FALSE)
  ELSE LET b == HexByte(h, at)
           l == (CHOOSE i \in 1..9 : Pow[i] <= b /\ (i = 9 \/ b < Pow[i + 1])) - 1
       IN IF Left(h, at) < 1 + l THEN Fail(FALSE)
          ELSE LET low == IF l = 0 THEN "0" ELSE LEBig(HexSub(h, at + 1, at + 1 + l))
                   v == IF l = 8 THEN low ELSE BAdd(BShl(ToString(b - Pow[l + 1]), 8 * l), low)
               IN Val(at + 1 + l, v, Compact(v) # HexSub(h, at, at + 1 + l), <<>>)

RECURSIVE Text(_)
Text(c) == IF Len(c) = 0 THEN "" ELSE IF Len(c) = 1 THEN c[1].s ELSE LET m == Len(c) \div 2 IN HexCat(<<Text(SubSeq(c, 1, m)), ",", Text(SubSeq(c, m + 1, Len(c)))>>)
Whole(c) == HexCat(<<"[", Text(c), "]">>)
Rising(t, c, Key_(_)) == \A i \in 1..(Len(c) - 1) : IF t.k \in {"int", "le"} THEN BLT(Key_(c[i]), Key_(c[i + 1])) ELSE HexLT(Key_(c[i]), Key_(c[i + 1]))
Odd(c) == \E i \in DOMAIN c : c[i].odd

RECURSIVE Read(_, _, _)
RECURSIVE ReadAll(_, _, _, _)
(* one after another; <<>> with a failure when one cannot be read *)
ReadAll(ts, h, at, done) ==
  IF Len(done) = Len(ts) THEN [ok |-> TRUE, n |-> at, c |-> done, odd |-> Odd(done)]
  ELSE LET r == Read(ts[Len(done) + 1], h, at) IN
       IF ~r.ok THEN [ok |-> FALSE, n |-> 0, c |-> <<>>, odd |-> r.odd \/ Odd(done)] ELSE ReadAll(ts, h, r.n, Append(done, r))
ReadRec(ts, h, at) == LET a == ReadAll(ts, h, at, <<>>) IN IF a.ok THEN Val(a.n, Whole(a.c), a.odd, a.c) ELSE Fail(a.odd)
(* a count, then as many *)
ReadMany(t, max, h, at) ==
  LET n == ReadInt(h, at) IN
  IF ~n.ok THEN n
  ELSE IF BLT(max, n.s) THEN Fail(n.odd)
  ELSE IF BLT(ToString(Left(h, n.n)), n.s) THEN Fail(TRUE)     \* more than there can be: fails, but maybe on the way
  ELSE LET r == ReadRec([i \in 1..ToInt(n.s) |-> t], h, n.n) IN [r EXCEPT !.odd = @ \/ n.odd]
BitAt(sub, i) == (HexByte(sub, i \div 8) \div (2 ^ (i % 8))) % 2
ReadBits(n, h, at) ==
  LET bytes == (n + 7) \div 8 IN
  IF Left(h, at) < bytes THEN Fail(FALSE)
  ELSE LET sub == HexSub(h, at, at + bytes) IN
       Val(at + bytes, HexCat([i \in 1..n |-> ToString(BitAt(sub, i - 1))]), \E i \in n..(8 * bytes - 1) : BitAt(sub, i) = 1, <<>>)
ReadBlob(h, at) ==
  LET n == ReadInt(h, at) IN
  IF ~n.ok THEN n ELSE IF BLT(ToString(Left(h, n.n)), n.s) THEN Fail(n.odd)
  ELSE Val(n.n + ToInt(n.s), HexSub(h, n.n, n.n + ToInt(n.s)), n.odd, <<>>)
(* a package followed by the data its items mention *)
ReadBundle(h, at) ==
  LET p == Read(Package, h, at) IN
  IF ~p.ok THEN p
  ELSE LET items == p.c[6].c
           xts == [i \in DOMAIN items |-> [j \in DOMAIN items[i].c[8].c |-> items[i].c[8].c[j].c[2].s]]
           big == \E i \in DOMAIN xts : \E j \in DOMAIN xts[i] : BLT(ToString(Left(h, p.n)), xts[i][j])
           imps(t) == Rec([i \in DOMAIN items |-> Rec([j \in DOMAIN items[i].c[7].c |-> t])])
       IN IF big THEN Fail(p.odd)
          ELSE LET r == ReadRec(<<Rec([i \in DOMAIN items |-> Rec([j \in DOMAIN xts[i] |-> Oct(ToInt(xts[i][j]))])]), imps(Oct(4104)), imps(Many(Hash))>>, h, p.n) IN
               IF r.ok THEN Val(r.n, Whole(<<p>> \o r.c), p.odd \/ r.odd, <<>>) ELSE Fail(p.odd \/ r.odd)
Read(t, h, at) ==
  CASE t.k = "int" -> LET r == ReadInt(h, at) IN IF r.ok /\ BLT(t.max, r.s) THEN Fail(r.odd) ELSE r
    [] t.k = "le" -> IF Left(h, at) < t.n THEN Fail(FALSE) ELSE Val(at + t.n, LEBig(HexSub(h, at, at + t.n)), FALSE, <<>>)
    [] t.k = "oct" -> IF Left(h, at) < t.n THEN Fail(FALSE) ELSE Val(at + t.n, HexSub(h, at, at + t.n), FALSE, <<>>)
    [] t.k = "blob" -> ReadBlob(h, at)
    [] t.k = "loose" -> LET r == ReadMany(Num(Max8), Max64, h, at) IN IF r.ok THEN [r EXCEPT !.s = HexCat([i \in DOMAIN r.c |-> LEnc(r.c[i].s, 1)])] ELSE r
    [] t.k = "bool" -> IF Left(h, at) < 1 \/ HexByte(h, at) > 1 THEN Fail(FALSE) ELSE Val(at + 1, ToString(HexByte(h, at)), FALSE, <<>>)
    [] t.k = "seq" -> ReadMany(t.t, t.max, h, at)
    [] t.k = "arr" -> ReadRec([i \in 1..t.n |-> t.t], h, at)
    [] t.k = "opt" -> IF Left(h, at) < 1 \/ HexByte(h, at) > 1 THEN Fail(FALSE)
                      ELSE IF HexByte(h, at) = 0 THEN Val(at + 1, "[]", FALSE, <<>>) ELSE ReadRec(<<t.t>>, h, at + 1)
    [] t.k = "rec" -> ReadRec(t.ts, h, at)
    [] t.k = "set" -> LET r == ReadMany(t.t, Max64, h, at) IN [r EXCEPT !.odd = @ \/ ~Rising(t.t, r.c, LAMBDA x : x.s)]
    [] t.k = "map" -> LET r == ReadMany(Pair(t.t, t.u), Max64, h, at) IN [r EXCEPT !.odd = @ \/ ~Rising(t.t, r.c, LAMBDA x : x.c[1].s)]
    [] t.k = "ordered" -> LET r == ReadMany(t.t, Max64, h, at) IN
                          [r EXCEPT !.odd = @ \/ Len(r.c) > t.max \/ ~Rising(t.t.ts[1], r.c, LAMBDA x : x.c[1].s)]
    [] t.k = "tag" -> LET d == IF t.raw THEN Read(LE(1), h, at) ELSE ReadInt(h, at) IN
                      IF ~d.ok \/ d.s \notin DOMAIN t.f THEN Fail(d.odd) ELSE LET r == Read(t.f[d.s], h, d.n) IN
                      IF ~r.ok THEN Fail(r.odd \/ d.odd) ELSE Val(r.n, HexCat(<<d.s, r.s>>), r.odd \/ d.odd, r.c)
    [] t.k = "bits" -> ReadBits(t.n, h, at)
    [] t.k = "anybits" -> LET n == ReadInt(h, at) IN
                          IF ~n.ok THEN n ELSE IF BLT(ToString(8 * Left(h, n.n)), n.s) THEN Fail(n.odd)
                          ELSE LET r == ReadBits(ToInt(n.s), h, n.n) IN [r EXCEPT !.odd = @ \/ n.odd]
    [] t.k = "rest" -> Val(HexLen(h), HexSub(h, at, HexLen(h)), FALSE, <<>>)
    [] t.k = "bundle" -> ReadBundle(h, at)
=============================================================================
