------------------------------- MODULE StateRoot -------------------------------
(* Root of the binary trie over 31-byte keys: empty subtree zero, leaf embedded (values up to 32 bytes) or hashed,
   branch = left hash with its first bit cleared ++ right hash. Depends on nothing but the map. *)
EXTENDS Prim, Integers, Sequences, FiniteSets
Zero32 == HexZero(32)
Byte(n) == LEnc(n, 1)
LeafBytes(k, v) == IF HexLen(v) <= 32
                   THEN HexCat(<<Byte(128 + HexLen(v)), k, v, HexZero(32 - HexLen(v))>>)
                   ELSE HexCat(<<Byte(192), k, Blake(v)>>)
ClearFirst(h) == HexCat(<<Byte(HexByte(h, 0) % 128), HexSub(h, 1, 32)>>)
RECURSIVE SubRoot(_, _, _)
SubRoot(m, ks, depth) ==
  IF ks = {} THEN Zero32
  ELSE IF Cardinality(ks) = 1 THEN LET k == CHOOSE x \in ks : TRUE IN Blake(LeafBytes(k, m[k]))
  ELSE LET left == {k \in ks : HexBit(k, depth) = 0} IN
       Blake(HexCat(<<ClearFirst(SubRoot(m, left, depth + 1)), SubRoot(m, ks \ left, depth + 1)>>))
Root(m) == SubRoot(m, DOMAIN m, 0)
=============================================================================
