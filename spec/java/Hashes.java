import tlc2.value.impl.*;
import java.math.BigInteger;

/** Blake2b and xxHash64 for TLC (module Hashes). */
public class Hashes {
  private static byte[] bytes(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    byte[] r = new byte[t.elems.length];
    for (int i = 0; i < r.length; i++) r[i] = (byte) ((IntValue) t.elems[i]).val;
    return r;
  }
  private static Value tuple(byte[] b, int n) {
    Value[] r = new Value[n];
    for (int i = 0; i < n; i++) r[i] = IntValue.gen(b[i] & 255);
    return new TupleValue(r);
  }
  private static final long[] IV = {0x6a09e667f3bcc908L, 0xbb67ae8584caa73bL, 0x3c6ef372fe94f82bL,
    0xa54ff53a5f1d36f1L, 0x510e527fade682d1L, 0x9b05688c2b3e6c1fL, 0x1f83d9abfb41bd6bL, 0x5be0cd19137e2179L};
  private static final int[][] S = {
    {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15}, {14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},
    {11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4}, {7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},
    {9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13}, {2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},
    {12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11}, {13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},
    {6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5}, {10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0}};
  private static void g(long[] v, int a, int b, int c, int d, long x, long y) {
    v[a] += v[b] + x; v[d] = Long.rotateRight(v[d] ^ v[a], 32);
    v[c] += v[d]; v[b] = Long.rotateRight(v[b] ^ v[c], 24);
    v[a] += v[b] + y; v[d] = Long.rotateRight(v[d] ^ v[a], 16);
    v[c] += v[d]; v[b] = Long.rotateRight(v[b] ^ v[c], 63);
  }
  static byte[] blake2b(byte[] in, int n) {
    long[] h = IV.clone();
    h[0] ^= 0x01010000L ^ n;
    int blocks = Math.max(1, (in.length + 127) / 128);
    for (int k = 0; k < blocks; k++) {
      boolean last = k == blocks - 1;
      long[] m = new long[16];
      for (int i = 0; i < 128 && k * 128 + i < in.length; i++)
        m[i / 8] |= (in[k * 128 + i] & 255L) << (8 * (i % 8));
      long[] v = new long[16];
      for (int i = 0; i < 8; i++) { v[i] = h[i]; v[i + 8] = IV[i]; }
      v[12] ^= last ? in.length : (k + 1) * 128L;
      if (last) v[14] = ~v[14];
      for (int r = 0; r < 12; r++) {
        int[] s = S[r % 10];
        g(v, 0, 4, 8, 12, m[s[0]], m[s[1]]); g(v, 1, 5, 9, 13, m[s[2]], m[s[3]]);
        g(v, 2, 6, 10, 14, m[s[4]], m[s[5]]); g(v, 3, 7, 11, 15, m[s[6]], m[s[7]]);
        g(v, 0, 5, 10, 15, m[s[8]], m[s[9]]); g(v, 1, 6, 11, 12, m[s[10]], m[s[11]]);
        g(v, 2, 7, 8, 13, m[s[12]], m[s[13]]); g(v, 3, 4, 9, 14, m[s[14]], m[s[15]]);
      }
      for (int i = 0; i < 8; i++) h[i] ^= v[i] ^ v[i + 8];
    }
    byte[] out = new byte[64];
    for (int i = 0; i < 64; i++) out[i] = (byte) (h[i / 8] >>> (8 * (i % 8)));
    return out;
  }
  private static final long P1 = 0x9E3779B185EBCA87L, P2 = 0xC2B2AE3D27D4EB4FL, P3 = 0x165667B19E3779F9L,
    P4 = 0x85EBCA77C2B2AE63L, P5 = 0x27D4EB2F165667C5L;
  private static long le(byte[] b, int i, int n) {
    long r = 0;
    for (int k = 0; k < n; k++) r |= (b[i + k] & 255L) << (8 * k);
    return r;
  }
  private static long round(long acc, long x) { return Long.rotateLeft(acc + x * P2, 31) * P1; }
  static long xx64(byte[] b, long seed) {
    int i = 0;
    long h;
    if (b.length >= 32) {
      long a = seed + P1 + P2, c = seed + P2, d = seed, e = seed - P1;
      for (; i + 32 <= b.length; i += 32) {
        a = round(a, le(b, i, 8)); c = round(c, le(b, i + 8, 8));
        d = round(d, le(b, i + 16, 8)); e = round(e, le(b, i + 24, 8));
      }
      h = Long.rotateLeft(a, 1) + Long.rotateLeft(c, 7) + Long.rotateLeft(d, 12) + Long.rotateLeft(e, 18);
      for (long x : new long[] {a, c, d, e}) h = (h ^ round(0, x)) * P1 + P4;
    } else h = seed + P5;
    h += b.length;
    for (; i + 8 <= b.length; i += 8) h = Long.rotateLeft(h ^ round(0, le(b, i, 8)), 27) * P1 + P4;
    if (i + 4 <= b.length) { h = Long.rotateLeft(h ^ le(b, i, 4) * P1, 23) * P2 + P3; i += 4; }
    for (; i < b.length; i++) h = Long.rotateLeft(h ^ (b[i] & 255L) * P5, 11) * P1;
    h ^= h >>> 33; h *= P2; h ^= h >>> 29; h *= P3; h ^= h >>> 32;
    return h;
  }
  public static Value Blake128(Value v) { return tuple(blake2b(bytes(v), 16), 16); }
  public static Value Blake512(Value v) { return tuple(blake2b(bytes(v), 64), 64); }
  public static Value Twox64(Value v) {
    long h = xx64(bytes(v), 0);
    byte[] o = new byte[8];
    for (int i = 0; i < 8; i++) o[i] = (byte) (h >>> (8 * i));
    return tuple(o, 8);
  }
  public static Value Utf8Str(Value v) {
    return new StringValue(new String(bytes(v), java.nio.charset.StandardCharsets.UTF_8));
  }
}
