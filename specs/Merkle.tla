------------------------------- MODULE Merkle -------------------------------
(* Binary Merkle trees (well-balanced and constant-depth), page proofs, and mountain ranges. *)
EXTENDS Base

Hash(h, x) == IF h = "b" THEN Blake(x) ELSE Keccak(x)
NODE == "6e6f6465"
LEAF == "6c656166"
PEAK == "7065616b"
Mid(n) == (n + 1) \div 2
First(v) == SubSeq(v, 1, Mid(Len(v)))
Rest(v) == SubSeq(v, Mid(Len(v)) + 1, Len(v))

RECURSIVE Node(_, _)
Node(h, v) == IF v = <<>> THEN Z32 ELSE IF Len(v) = 1 THEN v[1]
              ELSE Hash(h, NODE \o Node(h, First(v)) \o Node(h, Rest(v)))

WellBalanced(h, v) == IF Len(v) = 1 THEN Hash(h, v[1]) ELSE Node(h, v)

(* siblings on the way from the root to leaf i (from 0) *)
RECURSIVE Trace_(_, _, _)
Trace_(h, v, i) ==
  IF Len(v) <= 1 THEN <<>>
  ELSE IF i < Mid(Len(v)) THEN <<Node(h, Rest(v))>> \o Trace_(h, First(v), i)
  ELSE <<Node(h, First(v))>> \o Trace_(h, Rest(v), i - Mid(Len(v)))

RECURSIVE Pow2Above(_, _)
Pow2Above(p, n) == IF p >= n THEN p ELSE Pow2Above(2 * p, n)
RECURSIVE Log2(_)
Log2(p) == IF p <= 1 THEN 0 ELSE 1 + Log2(p \div 2)
Padded(n) == Pow2Above(1, Max2(1, n))
Leaves(h, v) == [i \in 1..Padded(Len(v)) |-> IF i <= Len(v) THEN Hash(h, LEAF \o v[i]) ELSE Z32]

ConstantDepth(h, v) == Node(h, Leaves(h, v))

(* proof for page p of 2^x leaves, and that page's leaf hashes *)
PageProof(h, v, x, p) == Head_(Trace_(h, Leaves(h, v), (2 ^ x) * p), Max2(0, Log2(Padded(Len(v))) - x))
PageLeaves(h, v, x, p) == Map(SubSeq(v, (2 ^ x) * p + 1, Min2(Len(v), (2 ^ x) * (p + 1))), LAMBDA y : Hash(h, LEAF \o y))

(* what a verifier computes: the page's subtree root combined with the proof, top sibling first; depth = whole tree depth *)
RECURSIVE Climb(_, _, _, _, _)
Climb(h, root, pos, proof, k) ==
  IF k = 0 THEN root
  ELSE Climb(h, IF pos % 2 = 0 THEN Hash(h, NODE \o root \o proof[k]) ELSE Hash(h, NODE \o proof[k] \o root), pos \div 2, proof, k - 1)
PageRoot(h, lv, x) == Node(h, [i \in 1..(2 ^ x) |-> IF i <= Len(lv) THEN lv[i] ELSE Z32])
VerifiedRoot(h, n, lv, x, p, proof) ==
  Climb(h, PageRoot(h, lv, Min2(x, Log2(Padded(n)))), p, proof, Len(proof))

(* mountain range: <<>> marks an empty peak *)
RECURSIVE AppendAt(_, _, _)
AppendAt(peaks, root, k) ==
  IF k > Len(peaks) THEN Append(peaks, root)
  ELSE IF peaks[k] = "" THEN [peaks EXCEPT ![k] = root]
  ELSE AppendAt([peaks EXCEPT ![k] = ""], Keccak(peaks[k] \o root), k + 1)
RangeAppend(peaks, leaf) == AppendAt(peaks, leaf, 1)
RECURSIVE Super(_)
Super(ps) == IF ps = <<>> THEN Z32 ELSE IF Len(ps) = 1 THEN ps[1]
             ELSE Keccak(PEAK \o Super(SubSeq(ps, 1, Len(ps) - 1)) \o ps[Len(ps)])
SuperPeak(peaks) == Super(SelectSeq(peaks, LAMBDA p : p # ""))

(* the same range, defined directly from the full list of leaves: one perfect tree per binary digit of its length,
   the oldest leaves in the largest *)
RECURSIVE Perfect(_)
Perfect(v) == IF Len(v) = 1 THEN v[1] ELSE Keccak(Perfect(First(v)) \o Perfect(Rest(v)))
RECURSIVE PeaksOf(_, _)
PeaksOf(v, k) ==   \* peaks of size 2^k and above
  IF v = <<>> THEN <<>>
  ELSE LET s == 2 ^ k take == (Len(v) \div s) % 2 = 1 IN
       <<IF take THEN Perfect(SubSeq(v, Len(v) - s + 1, Len(v))) ELSE "">>
       \o PeaksOf(IF take THEN SubSeq(v, 1, Len(v) - s) ELSE v, k + 1)
RangeOf(v) == PeaksOf(v, 0)
=============================================================================
