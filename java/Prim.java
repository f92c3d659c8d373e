import tlc2.value.impl.*;
import tlc2.value.IValue;
import util.UniqueString;
import java.math.BigInteger;
import java.util.*;

/** Primitive functions the TLA+ specifications leave to the platform: hashes, byte strings (lowercase hex), big integers (decimal strings). */
public class Prim {
  static String s(Value v) { return ((StringValue) v).val.toString(); }
  static int i(Value v) { return ((IntValue) v).val; }
  static Value str(String x) { return new StringValue(x); }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static BigInteger n(Value v) { return v instanceof IntValue ? BigInteger.valueOf(((IntValue) v).val) : new BigInteger(s(v)); }
  static Value num(BigInteger b) { return str(b.toString()); }
  static byte[] hex(String h) {
    byte[] o = new byte[h.length() / 2];
    for (int k = 0; k < o.length; k++) o[k] = (byte) ((Character.digit(h.charAt(2 * k), 16) << 4) | Character.digit(h.charAt(2 * k + 1), 16));
    return o;
  }
  static final char[] D = "0123456789abcdef".toCharArray();
  static String unhex(byte[] b) {
    char[] c = new char[b.length * 2];
    for (int k = 0; k < b.length; k++) { c[2 * k] = D[(b[k] >> 4) & 15]; c[2 * k + 1] = D[b[k] & 15]; }
    return new String(c);
  }

  // ---- hashes
  public static Value Blake(StringValue a) { return str(unhex(blake2b256(hex(s(a))))); }
  public static Value Keccak(StringValue a) { return str(unhex(keccak256(hex(s(a))))); }

  // ---- byte strings
  public static Value HexLT(StringValue a, StringValue b) { return bool(s(a).compareTo(s(b)) < 0); }
  public static Value HexLen(StringValue a) { return IntValue.gen(s(a).length() / 2); }
  public static Value HexSub(StringValue a, IntValue from, IntValue to) { // bytes from..to-1, 0-based
    return str(s(a).substring(2 * i(from), 2 * i(to)));
  }
  public static Value HexByte(StringValue a, IntValue k) { return IntValue.gen(Integer.parseInt(s(a).substring(2 * i(k), 2 * i(k) + 2), 16)); }
  public static Value HexCat(Value seq) {
    TupleValue t = (TupleValue) seq.toTuple();
    StringBuilder sb = new StringBuilder();
    for (Value v : t.elems) sb.append(s(v));
    return str(sb.toString());
  }
  public static Value HexZero(IntValue k) { char[] c = new char[2 * i(k)]; Arrays.fill(c, '0'); return str(new String(c)); }
  public static Value HexBit(StringValue a, IntValue k) { // most significant bit first
    int by = Integer.parseInt(s(a).substring(2 * (i(k) / 8), 2 * (i(k) / 8) + 2), 16);
    return IntValue.gen((by >> (7 - i(k) % 8)) & 1);
  }
  /** n as a len-byte little-endian string (n modulo 2^(8 len)). */
  public static Value LEnc(Value v, IntValue len) {
    BigInteger b = n(v).mod(BigInteger.ONE.shiftLeft(8 * i(len)));
    byte[] o = new byte[i(len)];
    for (int k = 0; k < o.length; k++) o[k] = b.shiftRight(8 * k).byteValue();
    return str(unhex(o));
  }
  static BigInteger le(String h) {
    byte[] b = hex(h);
    BigInteger r = BigInteger.ZERO;
    for (int k = b.length - 1; k >= 0; k--) r = r.shiftLeft(8).or(BigInteger.valueOf(b[k] & 255));
    return r;
  }
  public static Value LEMod(StringValue h, IntValue m) { return IntValue.gen(le(s(h)).mod(BigInteger.valueOf(i(m))).intValue()); }
  public static Value LEBig(StringValue h) { return num(le(s(h))); }
  /** Compact integer encoding of the protocol. */
  public static Value Compact(Value v) {
    BigInteger x = n(v);
    if (x.signum() == 0) return str("00");
    for (int l = 0; l < 8; l++) {
      if (x.compareTo(BigInteger.ONE.shiftLeft(7 * (l + 1))) < 0) {
        int first = (256 - (1 << (8 - l))) + x.shiftRight(8 * l).intValue();
        byte[] o = new byte[l + 1];
        o[0] = (byte) first;
        for (int k = 0; k < l; k++) o[k + 1] = x.shiftRight(8 * k).byteValue();
        return str(unhex(o));
      }
    }
    byte[] o = new byte[9];
    o[0] = (byte) 255;
    for (int k = 0; k < 8; k++) o[k + 1] = x.shiftRight(8 * k).byteValue();
    return str(unhex(o));
  }

  // ---- big integers
  public static Value BAdd(Value a, Value b) { return num(n(a).add(n(b))); }
  public static Value BSub(Value a, Value b) { return num(n(a).subtract(n(b))); }
  public static Value BMul(Value a, Value b) { return num(n(a).multiply(n(b))); }
  /** floor division and modulus */
  public static Value BDiv(Value a, Value b) {
    BigInteger[] q = n(a).divideAndRemainder(n(b));
    return num(q[1].signum() != 0 && (q[1].signum() != n(b).signum()) ? q[0].subtract(BigInteger.ONE) : q[0]);
  }
  public static Value BMod(Value a, Value b) { return num(n(a).mod(n(b))); }
  /** truncating division and remainder */
  public static Value BQuo(Value a, Value b) { return num(n(a).divide(n(b))); }
  public static Value BRem(Value a, Value b) { return num(n(a).remainder(n(b))); }
  public static Value BLT(Value a, Value b) { return bool(n(a).compareTo(n(b)) < 0); }
  public static Value BLE(Value a, Value b) { return bool(n(a).compareTo(n(b)) <= 0); }
  public static Value BEQ(Value a, Value b) { return bool(n(a).compareTo(n(b)) == 0); }
  public static Value BMin(Value a, Value b) { return num(n(a).min(n(b))); }
  public static Value BMax(Value a, Value b) { return num(n(a).max(n(b))); }
  public static Value BAnd(Value a, Value b) { return num(n(a).and(n(b))); }
  public static Value BOr(Value a, Value b) { return num(n(a).or(n(b))); }
  public static Value BXor(Value a, Value b) { return num(n(a).xor(n(b))); }
  public static Value BShl(Value a, Value k) { return num(n(a).shiftLeft(n(k).intValue())); }
  public static Value BShr(Value a, Value k) { return num(n(a).shiftRight(n(k).intValue())); }
  public static Value BBits(Value a) { return IntValue.gen(n(a).bitCount()); }
  public static Value BLen(Value a) { return IntValue.gen(n(a).bitLength()); }
  public static Value BTrail(Value a) { return IntValue.gen(n(a).getLowestSetBit()); }
  /** decimal string to a TLA+ integer; -1 when it does not fit */
  public static Value ToInt(Value a) { BigInteger x = n(a); return IntValue.gen(x.bitLength() < 31 ? x.intValue() : -1); }
  /** Octets as a tuple of numbers, and back. */
  public static Value HexToSeq(StringValue a) {
    byte[] b = hex(s(a));
    Value[] o = new Value[b.length];
    for (int k = 0; k < b.length; k++) o[k] = IntValue.gen(b[k] & 255);
    return new TupleValue(o);
  }
  public static Value SeqToHex(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    byte[] o = new byte[t.elems.length];
    for (int k = 0; k < o.length; k++) o[k] = (byte) i(t.elems[k]);
    return str(unhex(o));
  }
  public static Value ToStr(Value a) { return num(n(a)); }

  // ---- blake2b
  static final long[] IV = {0x6a09e667f3bcc908L, 0xbb67ae8584caa73bL, 0x3c6ef372fe94f82bL, 0xa54ff53a5f1d36f1L, 0x510e527fade682d1L, 0x9b05688c2b3e6c1fL, 0x1f83d9abfb41bd6bL, 0x5be0cd19137e2179L};
  static final byte[][] SG = {
    {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},{11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4},{7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},
    {9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13},{2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},{12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11},{13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},
    {6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5},{10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0}};
  static void g(long[] v, int a, int b, int c, int d, long x, long y) {
    v[a] += v[b] + x; v[d] = Long.rotateRight(v[d] ^ v[a], 32); v[c] += v[d]; v[b] = Long.rotateRight(v[b] ^ v[c], 24);
    v[a] += v[b] + y; v[d] = Long.rotateRight(v[d] ^ v[a], 16); v[c] += v[d]; v[b] = Long.rotateRight(v[b] ^ v[c], 63);
  }
  static byte[] blake2b256(byte[] in) {
    long[] h = IV.clone();
    h[0] ^= 0x01010000L ^ 32;
    int nb = Math.max(1, (in.length + 127) / 128);
    for (int bl = 0; bl < nb; bl++) {
      long[] m = new long[16];
      int end = Math.min(in.length, bl * 128 + 128);
      for (int k = bl * 128; k < end; k++) m[(k % 128) / 8] |= (in[k] & 255L) << (8 * (k % 8));
      long[] v = new long[16];
      System.arraycopy(h, 0, v, 0, 8);
      System.arraycopy(IV, 0, v, 8, 8);
      v[12] ^= end;
      if (bl == nb - 1) v[14] = ~v[14];
      for (int r = 0; r < 12; r++) {
        byte[] q = SG[r % 10];
        g(v,0,4,8,12,m[q[0]],m[q[1]]); g(v,1,5,9,13,m[q[2]],m[q[3]]); g(v,2,6,10,14,m[q[4]],m[q[5]]); g(v,3,7,11,15,m[q[6]],m[q[7]]);
        g(v,0,5,10,15,m[q[8]],m[q[9]]); g(v,1,6,11,12,m[q[10]],m[q[11]]); g(v,2,7,8,13,m[q[12]],m[q[13]]); g(v,3,4,9,14,m[q[14]],m[q[15]]);
      }
      for (int k = 0; k < 8; k++) h[k] ^= v[k] ^ v[k + 8];
    }
    byte[] o = new byte[32];
    for (int k = 0; k < 32; k++) o[k] = (byte) (h[k / 8] >>> (8 * (k % 8)));
    return o;
  }

  // ---- keccak-256
  static byte[] keccak256(byte[] in) {
    int rate = 136;
    byte[] p = Arrays.copyOf(in, (in.length / rate + 1) * rate);
    p[in.length] |= 1;
    p[p.length - 1] |= (byte) 0x80;
    long[] a = new long[25];
    for (int o = 0; o < p.length; o += rate) {
      for (int k = 0; k < rate; k++) a[k / 8] ^= (p[o + k] & 255L) << (8 * (k % 8));
      f1600(a);
    }
    byte[] out = new byte[32];
    for (int k = 0; k < 32; k++) out[k] = (byte) (a[k / 8] >>> (8 * (k % 8)));
    return out;
  }
  static void f1600(long[] a) {
    int lfsr = 1;
    for (int round = 0; round < 24; round++) {
      long[] c = new long[5];
      for (int x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
      for (int x = 0; x < 5; x++) { long d = c[(x + 4) % 5] ^ Long.rotateLeft(c[(x + 1) % 5], 1); for (int y = 0; y < 25; y += 5) a[y + x] ^= d; }
      int x = 1, y = 0; long cur = a[1];
      for (int t = 0; t < 24; t++) {
        int r = ((t + 1) * (t + 2) / 2) % 64;
        int Y = (2 * x + 3 * y) % 5; x = y; y = Y;
        long tmp = a[x + 5 * y]; a[x + 5 * y] = Long.rotateLeft(cur, r); cur = tmp;
      }
      for (int yy = 0; yy < 25; yy += 5) {
        long[] t = new long[5];
        for (int xx = 0; xx < 5; xx++) t[xx] = a[yy + xx];
        for (int xx = 0; xx < 5; xx++) a[yy + xx] = t[xx] ^ (~t[(xx + 1) % 5] & t[(xx + 2) % 5]);
      }
      for (int j = 0; j < 7; j++) {
        if ((lfsr & 1) != 0) a[0] ^= 1L << ((1 << j) - 1);
        lfsr = (lfsr & 0x80) != 0 ? (lfsr << 1) ^ 0x171 : lfsr << 1;
      }
    }
  }

  // ---- the field of 2^16 elements (polynomial 0x1002D) in Cantor coordinates, in which addition is exclusive or
  static int[] GLOG, GEXP;
  static synchronized void gf() {
    if (GLOG != null) return;
    int[] basis = {0x0001, 0xACCA, 0x3C0E, 0x163E, 0xC582, 0xED2E, 0x914C, 0x4012, 0x6C98, 0x10D8, 0x6A72, 0xB900, 0xFDB8, 0xFB34, 0xFF38, 0x991E};
    int[] phi = new int[65536], inv = new int[65536], lg = new int[65536], ex = new int[65536];
    for (int w = 0; w < 65536; w++) { int e = 0; for (int j = 0; j < 16; j++) if ((w >> j & 1) != 0) e ^= basis[j]; phi[w] = e; inv[e] = w; }
    int x = 1;
    for (int k = 0; k < 65535; k++) { lg[inv[x]] = k; ex[k] = inv[x]; x <<= 1; if ((x & 0x10000) != 0) x ^= 0x1002D; }
    GEXP = ex; GLOG = lg;
  }
  public static Value GMul(IntValue a, IntValue b) {
    gf();
    if (i(a) == 0 || i(b) == 0) return IntValue.gen(0);
    return IntValue.gen(GEXP[(GLOG[i(a)] + GLOG[i(b)]) % 65535]);
  }
  public static Value GInv(IntValue a) { gf(); return IntValue.gen(GEXP[(65535 - GLOG[i(a)]) % 65535]); }
  public static Value GXor(IntValue a, IntValue b) { return IntValue.gen(i(a) ^ i(b)); }

  // ---- points of the Bandersnatch curve a x^2 + y^2 = 1 + d x^2 y^2, encoded as y with the sign of x in the topmost bit
  static final BigInteger BP = new BigInteger("52435875175126190479447740508185965837690552500527637822603658699938581184513");
  static final BigInteger BD = new BigInteger("6389c12633c267cbc66e3bf86be3b6d8cb66677177e54f92b369f2f5188d58e7", 16);
  public static Value BanderPoint(StringValue k) {   // "none": encodes no point; "small": x = 0, of order one or two; "point"
    BigInteger y = le(s(k)).clearBit(255);
    if (y.compareTo(BP) >= 0) return str("none");
    BigInteger y2 = y.multiply(y).mod(BP);
    BigInteger num = BigInteger.ONE.subtract(y2).mod(BP), den = BigInteger.valueOf(-5).subtract(BD.multiply(y2)).mod(BP);
    if (num.signum() == 0) return str("small");
    if (den.signum() == 0) return str("none");
    BigInteger x2 = num.multiply(den.modInverse(BP)).mod(BP);
    return str(x2.modPow(BP.shiftRight(1), BP).equals(BigInteger.ONE) ? "point" : "none");
  }
}
