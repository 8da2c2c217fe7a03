package nv;

import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** TLC module overrides: the same functions as the TLA+ definitions of
    Bytes, Keccak, SM3Fn, AesFn and BigNum, evaluated faster.  LibSelfTest.tla
    is evaluated with and without them and the results are compared. */
public class Ov implements ITLCOverrides {
  @SuppressWarnings("rawtypes")
  public Class[] get() { return new Class[] { Ov.class }; }

  // ---------- conversions ----------
  static int[] ints(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    int[] r = new int[t.elems.length];
    for (int i = 0; i < r.length; i++) r[i] = ((IntValue) t.elems[i]).val;
    return r;
  }
  static final Value[] BYTE = new Value[256];
  static { for (int i = 0; i < 256; i++) BYTE[i] = IntValue.gen(i); }
  static Value tup(int[] a) {
    Value[] e = new Value[a.length];
    for (int i = 0; i < a.length; i++) e[i] = BYTE[a[i] & 255];
    return new TupleValue(e);
  }
  static int i(Value v) { return ((IntValue) v).val; }

  // ---------- Bytes ----------
  @TLAPlusOperator(identifier = "XorSeq", module = "Bytes", warn = false)
  public static Value xorSeq(Value a, Value b) {
    int[] x = ints(a), y = ints(b);
    if (y.length < x.length) throw new RuntimeException("XorSeq: lengths");
    int[] r = new int[x.length];
    for (int k = 0; k < r.length; k++) r[k] = x[k] ^ y[k];
    return tup(r);
  }
  @TLAPlusOperator(identifier = "XorByte", module = "Bytes", warn = false)
  public static Value xorByte(Value a, Value b) { return BYTE[i(a) ^ i(b)]; }
  @TLAPlusOperator(identifier = "Zeros", module = "Bytes", warn = false)
  public static Value zeros(Value n) { return tup(new int[Math.max(0, i(n))]); }

  // ---------- Keccak ----------
  static long[] RC = new long[24];
  static {
    int lfsr = 1;
    for (int r = 0; r < 24; r++) {
      long c = 0;
      for (int j = 0; j < 7; j++) {
        if ((lfsr & 1) != 0) c |= 1L << ((1 << j) - 1);
        lfsr <<= 1;
        if ((lfsr & 0x100) != 0) lfsr ^= 0x171;
      }
      RC[r] = c;
    }
  }
  static void perm(long[] a) {
    long[] c = new long[5], bb = new long[25];
    for (int r = 0; r < 24; r++) {
      for (int x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
      for (int x = 0; x < 5; x++) {
        long d = c[(x + 4) % 5] ^ Long.rotateLeft(c[(x + 1) % 5], 1);
        for (int y = 0; y < 25; y += 5) a[x + y] ^= d;
      }
      bb[0] = a[0];
      for (int t = 0; t < 24; t++) bb[TO[t]] = Long.rotateLeft(a[FROM[t]], ROT[t]);
      for (int yy = 0; yy < 25; yy += 5) {
        long b0 = bb[yy], b1 = bb[yy + 1], b2 = bb[yy + 2], b3 = bb[yy + 3], b4 = bb[yy + 4];
        a[yy] = b0 ^ (~b1 & b2);
        a[yy + 1] = b1 ^ (~b2 & b3);
        a[yy + 2] = b2 ^ (~b3 & b4);
        a[yy + 3] = b3 ^ (~b4 & b0);
        a[yy + 4] = b4 ^ (~b0 & b1);
      }
      a[0] ^= RC[r];
    }
  }
  static final int[] FROM = new int[24], TO = new int[24], ROT = new int[24];
  static {
    int x = 1, y = 0;
    for (int t = 0; t < 24; t++) {
      int nx = y, ny = (2 * x + 3 * y) % 5;
      FROM[t] = x + 5 * y; TO[t] = nx + 5 * ny; ROT[t] = ((t + 1) * (t + 2) / 2) % 64;
      x = nx; y = ny;
    }
  }
  static long[] lanes(Value s) {
    int[] b = ints(s);
    long[] a = new long[25];
    for (int k = 0; k < b.length; k++) a[k >> 3] |= ((long) b[k]) << (8 * (k & 7));
    return a;
  }
  static Value unlanes(long[] a) {
    int[] o = new int[200];
    for (int k = 0; k < 200; k++) o[k] = (int) (a[k >> 3] >>> (8 * (k & 7))) & 255;
    return tup(o);
  }
  @TLAPlusOperator(identifier = "KeccakF", module = "Keccak", warn = false)
  public static Value keccakF(Value s) {
    long[] a = lanes(s);
    perm(a);
    return unlanes(a);
  }
  @TLAPlusOperator(identifier = "AbsorbRepeat", module = "Keccak", warn = false)
  public static Value absorbRepeat(Value s, Value blk, Value n) {
    long[] a = lanes(s), b = lanes(blk);
    for (int k = i(n); k > 0; k--) {
      for (int x = 0; x < 25; x++) a[x] ^= b[x];
      perm(a);
    }
    return unlanes(a);
  }

  // ---------- SM3 ----------
  static void sm3c(int[] v, int[] blk) {
    int[] w = new int[68];
    for (int k = 0; k < 16; k++) w[k] = blk[k];
    for (int j = 16; j < 68; j++) {
      int x = w[j - 16] ^ w[j - 9] ^ Integer.rotateLeft(w[j - 3], 15);
      x = x ^ Integer.rotateLeft(x, 15) ^ Integer.rotateLeft(x, 23);
      w[j] = x ^ Integer.rotateLeft(w[j - 13], 7) ^ w[j - 6];
    }
    int A = v[0], B = v[1], C = v[2], D = v[3], E = v[4], F = v[5], G = v[6], H = v[7];
    for (int j = 0; j < 64; j++) {
      int t = j < 16 ? 0x79cc4519 : 0x7a879d8a;
      int ss1 = Integer.rotateLeft(Integer.rotateLeft(A, 12) + E + Integer.rotateLeft(t, j % 32), 7);
      int ss2 = ss1 ^ Integer.rotateLeft(A, 12);
      int ff = j < 16 ? A ^ B ^ C : (A & B) | (A & C) | (B & C);
      int gg = j < 16 ? E ^ F ^ G : (E & F) | (~E & G);
      int tt1 = ff + D + ss2 + (w[j] ^ w[j + 4]);
      int tt2 = gg + H + ss1 + w[j];
      D = C; C = Integer.rotateLeft(B, 9); B = A; A = tt1;
      H = G; G = Integer.rotateLeft(F, 19); F = E;
      E = tt2 ^ Integer.rotateLeft(tt2, 9) ^ Integer.rotateLeft(tt2, 17);
    }
    v[0] ^= A; v[1] ^= B; v[2] ^= C; v[3] ^= D; v[4] ^= E; v[5] ^= F; v[6] ^= G; v[7] ^= H;
  }
  static int[] words(int[] b) {
    int[] r = new int[b.length / 4];
    for (int k = 0; k < r.length; k++)
      r[k] = b[4 * k] << 24 | b[4 * k + 1] << 16 | b[4 * k + 2] << 8 | b[4 * k + 3];
    return r;
  }
  static Value unwords(int[] w) {
    int[] r = new int[4 * w.length];
    for (int k = 0; k < r.length; k++) r[k] = (w[k >> 2] >>> (24 - 8 * (k & 3))) & 255;
    return tup(r);
  }
  @TLAPlusOperator(identifier = "SM3Compress", module = "SM3Fn", warn = false)
  public static Value sm3(Value v, Value b) {
    int[] x = words(ints(v));
    sm3c(x, words(ints(b)));
    return unwords(x);
  }
  @TLAPlusOperator(identifier = "SM3Repeat", module = "SM3Fn", warn = false)
  public static Value sm3r(Value v, Value b, Value n) {
    int[] x = words(ints(v)), w = words(ints(b));
    for (int k = i(n); k > 0; k--) sm3c(x, w);
    return unwords(x);
  }

  // ---------- AES ----------
  static int xt(int a) { a <<= 1; return (a & 0x100) != 0 ? a ^ 0x11b : a; }
  static int gm(int a, int b) { int r = 0; while (b != 0) { if ((b & 1) != 0) r ^= a; a = xt(a); b >>= 1; } return r; }
  static final int[] SB = new int[256], IS = new int[256];
  static final int[][] M = new int[16][256];
  static {
    for (int a = 0; a < 256; a++) {
      int inv = 0;
      for (int b = 1; b < 256 && a != 0; b++) if (gm(a, b) == 1) { inv = b; break; }
      int s = 0x63;
      for (int k = 0; k < 5; k++) s ^= ((inv << k) | (inv >> (8 - k))) & 255;
      SB[a] = s; IS[s] = a;
    }
    for (int m = 0; m < 16; m++) for (int a = 0; a < 256; a++) M[m][a] = gm(a, m);
  }
  static int[][] ks(int[] key) {
    int nk = key.length / 4, tot = 4 * (nk + 7);
    int[][] w = new int[tot][];
    for (int k = 0; k < nk; k++) w[k] = new int[] { key[4*k], key[4*k+1], key[4*k+2], key[4*k+3] };
    int rc = 1;
    for (int k = nk; k < tot; k++) {
      int[] t = w[k - 1].clone();
      if (k % nk == 0) { t = new int[] { SB[t[1]] ^ rc, SB[t[2]], SB[t[3]], SB[t[0]] }; rc = xt(rc); }
      else if (nk > 6 && k % nk == 4) for (int j = 0; j < 4; j++) t[j] = SB[t[j]];
      for (int j = 0; j < 4; j++) t[j] ^= w[k - nk][j];
      w[k] = t;
    }
    return w;
  }
  static void ark(int[] s, int[][] w, int r) { for (int k = 0; k < 16; k++) s[k] ^= w[4 * r + k / 4][k % 4]; }
  @TLAPlusOperator(identifier = "AesEnc", module = "AesFn", warn = false)
  public static Value aesEnc(Value key, Value blk) {
    int[] s = ints(blk).clone(), kk = ints(key);
    int[][] w = ks(kk);
    int nr = kk.length / 4 + 6;
    ark(s, w, 0);
    for (int r = 1; r <= nr; r++) {
      int[] t = new int[16];
      for (int k = 0; k < 16; k++) t[k] = SB[s[k % 4 + 4 * ((k / 4 + k % 4) % 4)]];
      if (r < nr) for (int c = 0; c < 16; c += 4) {
        int a = t[c], b = t[c+1], d = t[c+2], e = t[c+3];
        s[c] = M[2][a] ^ M[3][b] ^ d ^ e; s[c+1] = a ^ M[2][b] ^ M[3][d] ^ e;
        s[c+2] = a ^ b ^ M[2][d] ^ M[3][e]; s[c+3] = M[3][a] ^ b ^ d ^ M[2][e];
      } else s = t;
      ark(s, w, r);
    }
    return tup(s);
  }
  @TLAPlusOperator(identifier = "AesDec", module = "AesFn", warn = false)
  public static Value aesDec(Value key, Value blk) {
    int[] s = ints(blk).clone(), kk = ints(key);
    int[][] w = ks(kk);
    int nr = kk.length / 4 + 6;
    ark(s, w, nr);
    for (int r = nr - 1; r >= 0; r--) {
      int[] t = new int[16];
      for (int k = 0; k < 16; k++) t[k] = IS[s[k % 4 + 4 * ((k / 4 + 4 - k % 4) % 4)]];
      ark(t, w, r);
      if (r > 0) for (int c = 0; c < 16; c += 4) {
        int a = t[c], b = t[c+1], d = t[c+2], e = t[c+3];
        s[c] = M[14][a] ^ M[11][b] ^ M[13][d] ^ M[9][e]; s[c+1] = M[9][a] ^ M[14][b] ^ M[11][d] ^ M[13][e];
        s[c+2] = M[13][a] ^ M[9][b] ^ M[14][d] ^ M[11][e]; s[c+3] = M[11][a] ^ M[13][b] ^ M[9][d] ^ M[14][e];
      } else s = t;
    }
    return tup(s);
  }

  // ---------- BigNum ----------
  static final class Big extends UserObj {
    final BigInteger v;
    Big(BigInteger v) { this.v = v; }
    @Override public int compareTo(Value o) { return v.compareTo(((Big) ((UserValue) o).userObj).v); }
    @Override public boolean member(Value o) { return false; }
    @Override public boolean isFinite() { return true; }
    @Override public StringBuffer toString(StringBuffer sb, int off, boolean sw) { return sb.append("0x").append(v.toString(16)); }
  }
  static BigInteger b(Value v) { return ((Big) ((UserValue) v).userObj).v; }
  static Value u(BigInteger v) { return new UserValue(new Big(v)); }
  static Value bool(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  @TLAPlusOperator(identifier = "BnFromBytes", module = "BigNum", warn = false)
  public static Value bnFrom(Value x) {
    int[] a = ints(x);
    byte[] r = new byte[a.length + 1];
    for (int k = 0; k < a.length; k++) r[a.length - k] = (byte) a[k];
    return u(new BigInteger(r));
  }
  @TLAPlusOperator(identifier = "BnVec", module = "BigNum", warn = false)
  public static Value bnVec(Value x, Value n) {
    int[] a = ints(x);
    int w = i(n);
    Value[] e = new Value[a.length / w];
    for (int j = 0; j < e.length; j++) {
      byte[] r = new byte[w + 1];
      for (int k = 0; k < w; k++) r[w - k] = (byte) a[j * w + k];
      e[j] = u(new BigInteger(r));
    }
    return new TupleValue(e);
  }
  @TLAPlusOperator(identifier = "BnToBytes", module = "BigNum", warn = false)
  public static Value bnTo(Value x, Value n) {
    int len = i(n);
    byte[] a = b(x).toByteArray();
    int[] r = new int[len];
    for (int k = 0; k < len; k++) { int q = a.length - 1 - k; r[k] = q >= 0 ? a[q] & 255 : 0; }
    return tup(r);
  }
  @TLAPlusOperator(identifier = "BnFits", module = "BigNum", warn = false)
  public static Value bnFits(Value x, Value n) { return bool(b(x).bitLength() <= 8 * i(n)); }
  @TLAPlusOperator(identifier = "BnInt", module = "BigNum", warn = false)
  public static Value bnInt(Value n) { return u(BigInteger.valueOf(i(n))); }
  @TLAPlusOperator(identifier = "BnLess", module = "BigNum", warn = false)
  public static Value bnLess(Value x, Value y) { return bool(b(x).compareTo(b(y)) < 0); }
  @TLAPlusOperator(identifier = "BnAdd", module = "BigNum", warn = false)
  public static Value bnAdd(Value x, Value y) { return u(b(x).add(b(y))); }
  @TLAPlusOperator(identifier = "BnSub", module = "BigNum", warn = false)
  public static Value bnSub(Value x, Value y) {
    BigInteger r = b(x).subtract(b(y));
    if (r.signum() < 0) throw new RuntimeException("BnSub: negative");
    return u(r);
  }
  @TLAPlusOperator(identifier = "BnMul", module = "BigNum", warn = false)
  public static Value bnMul(Value x, Value y) { return u(b(x).multiply(b(y))); }
  @TLAPlusOperator(identifier = "BnBit", module = "BigNum", warn = false)
  public static Value bnBit(Value x, Value n) { return BYTE[b(x).testBit(i(n)) ? 1 : 0]; }
  @TLAPlusOperator(identifier = "BnBitLen", module = "BigNum", warn = false)
  public static Value bnBitLen(Value x) { return IntValue.gen(b(x).bitLength()); }
  @TLAPlusOperator(identifier = "BnMod", module = "BigNum", warn = false)
  public static Value bnMod(Value x, Value m) { return u(b(x).mod(b(m))); }
  @TLAPlusOperator(identifier = "BnPow2", module = "BigNum", warn = false)
  public static Value bnPow2(Value k) { return u(BigInteger.ONE.shiftLeft(i(k))); }
  @TLAPlusOperator(identifier = "BnHalf", module = "BigNum", warn = false)
  public static Value bnHalf(Value x) { return u(b(x).shiftRight(1)); }

  static BigInteger inv(BigInteger p, BigInteger a) { return a.signum() == 0 ? a : a.modInverse(p); }
  @TLAPlusOperator(identifier = "FpRed", module = "BigNum", warn = false)
  public static Value fpRed(Value p, Value a) { return u(b(a).mod(b(p))); }
  @TLAPlusOperator(identifier = "FpAdd", module = "BigNum", warn = false)
  public static Value fpAdd(Value p, Value x, Value y) { return u(add(b(p), b(x), b(y))); }
  @TLAPlusOperator(identifier = "FpSub", module = "BigNum", warn = false)
  public static Value fpSub(Value p, Value x, Value y) { return u(sub(b(p), b(x), b(y))); }
  @TLAPlusOperator(identifier = "FpMul", module = "BigNum", warn = false)
  public static Value fpMul(Value p, Value x, Value y) { return u(b(x).multiply(b(y)).mod(b(p))); }
  @TLAPlusOperator(identifier = "FpNeg", module = "BigNum", warn = false)
  public static Value fpNeg(Value p, Value x) { return u(b(x).negate().mod(b(p))); }
  @TLAPlusOperator(identifier = "FpInv", module = "BigNum", warn = false)
  public static Value fpInv(Value p, Value x) { return u(inv(b(p), b(x))); }
  @TLAPlusOperator(identifier = "FpPow", module = "BigNum", warn = false)
  public static Value fpPow(Value p, Value x, Value e) { return u(b(x).modPow(b(e), b(p))); }

  static BigInteger add(BigInteger p, BigInteger a, BigInteger c) { BigInteger r = a.add(c); return r.compareTo(p) >= 0 ? r.mod(p) : r; }
  static BigInteger sub(BigInteger p, BigInteger a, BigInteger c) { BigInteger r = a.subtract(c); return r.signum() < 0 || r.compareTo(p) >= 0 ? r.mod(p) : r; }
  static BigInteger re(Value x) { return b(((TupleValue) x.toTuple()).elems[0]); }
  static BigInteger im(Value x) { return b(((TupleValue) x.toTuple()).elems[1]); }
  static Value f2(BigInteger r, BigInteger m) { return new TupleValue(new Value[] { u(r), u(m) }); }
  @TLAPlusOperator(identifier = "F2Add", module = "BigNum", warn = false)
  public static Value f2Add(Value p, Value x, Value y) { BigInteger q = b(p); return f2(add(q, re(x), re(y)), add(q, im(x), im(y))); }
  @TLAPlusOperator(identifier = "F2Sub", module = "BigNum", warn = false)
  public static Value f2Sub(Value p, Value x, Value y) { BigInteger q = b(p); return f2(sub(q, re(x), re(y)), sub(q, im(x), im(y))); }
  @TLAPlusOperator(identifier = "F2Mul", module = "BigNum", warn = false)
  public static Value f2Mul(Value p, Value x, Value y) {
    BigInteger q = b(p), a = re(x), c = im(x), d = re(y), e = im(y);
    return f2(a.multiply(d).subtract(c.multiply(e)).mod(q), a.multiply(e).add(c.multiply(d)).mod(q));
  }
  @TLAPlusOperator(identifier = "F2Inv", module = "BigNum", warn = false)
  public static Value f2Inv(Value p, Value x) {
    BigInteger q = b(p), a = re(x), c = im(x);
    BigInteger d = inv(q, a.multiply(a).add(c.multiply(c)).mod(q));
    return f2(a.multiply(d).mod(q), c.negate().multiply(d).mod(q));
  }
}
