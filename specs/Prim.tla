-------------------------------- MODULE Prim --------------------------------
(* Primitives of the platform, implemented by java/Prim.java (TLC module override).
   Byte strings are lowercase hexadecimal strings, numbers beyond 31 bits are decimal strings. *)
EXTENDS Integers, Sequences
Blake(x) == CHOOSE y \in STRING : TRUE        \* Blake2b-256
Keccak(x) == CHOOSE y \in STRING : TRUE       \* Keccak-256
HexLT(a, b) == CHOOSE y \in BOOLEAN : TRUE    \* lexicographic order of byte strings
HexLen(a) == CHOOSE y \in Nat : TRUE
HexSub(a, from, to) == CHOOSE y \in STRING : TRUE   \* bytes from..to-1 (0-based)
HexByte(a, k) == CHOOSE y \in 0..255 : TRUE
HexBit(a, k) == CHOOSE y \in 0..1 : TRUE
HexCat(s) == CHOOSE y \in STRING : TRUE
HexZero(k) == CHOOSE y \in STRING : TRUE
LEnc(n, len) == CHOOSE y \in STRING : TRUE
LEMod(h, m) == CHOOSE y \in Nat : TRUE
LEBig(h) == CHOOSE y \in STRING : TRUE
Compact(n) == CHOOSE y \in STRING : TRUE
BAdd(a, b) == CHOOSE y \in STRING : TRUE
BSub(a, b) == CHOOSE y \in STRING : TRUE
BMul(a, b) == CHOOSE y \in STRING : TRUE
BDiv(a, b) == CHOOSE y \in STRING : TRUE
BMod(a, b) == CHOOSE y \in STRING : TRUE
BQuo(a, b) == CHOOSE y \in STRING : TRUE
BRem(a, b) == CHOOSE y \in STRING : TRUE
BLT(a, b) == CHOOSE y \in BOOLEAN : TRUE
BLE(a, b) == CHOOSE y \in BOOLEAN : TRUE
BEQ(a, b) == CHOOSE y \in BOOLEAN : TRUE
BMin(a, b) == CHOOSE y \in STRING : TRUE
BMax(a, b) == CHOOSE y \in STRING : TRUE
BAnd(a, b) == CHOOSE y \in STRING : TRUE
BOr(a, b) == CHOOSE y \in STRING : TRUE
BXor(a, b) == CHOOSE y \in STRING : TRUE
BShl(a, k) == CHOOSE y \in STRING : TRUE
BShr(a, k) == CHOOSE y \in STRING : TRUE
BBits(a) == CHOOSE y \in Nat : TRUE
BLen(a) == CHOOSE y \in Nat : TRUE
BTrail(a) == CHOOSE y \in Int : TRUE
BanderPoint(k) == CHOOSE y \in STRING : TRUE    \* what 32 octets are on the Bandersnatch curve: "none", "small", "point"
GMul(a, b) == CHOOSE y \in 0..65535 : TRUE     \* field of 2^16 elements
GInv(a) == CHOOSE y \in 0..65535 : TRUE
GXor(a, b) == CHOOSE y \in Nat : TRUE
HexToSeq(a) == CHOOSE y \in Seq(0..255) : TRUE   \* a byte string as a sequence of numbers
SeqToHex(s) == CHOOSE y \in STRING : TRUE
ToInt(a) == CHOOSE y \in Int : TRUE
ToStr(a) == CHOOSE y \in STRING : TRUE
=============================================================================
