package nv;

import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Curve-level accelerators for SidhFn and CsidhFn (same formulas as the TLA+
    definitions).  CurveSelfTest.tla compares them with those definitions. */
public class OvC implements ITLCOverrides {
  @SuppressWarnings("rawtypes")
  public Class[] get() { return new Class[] { OvC.class }; }

  static final BigInteger TWO = BigInteger.valueOf(2), THREE = BigInteger.valueOf(3), FOUR = BigInteger.valueOf(4), SIX = BigInteger.valueOf(6);
  static BigInteger big(Value v) { return Ov.b(v); }
  static Value elem(Value v, int k) { return ((TupleValue) v.toTuple()).elems[k]; }
  static Value pair(Value a, Value b) { return new TupleValue(new Value[] { a, b }); }

  // ---------- GF(p), CSIDH ----------
  static final int[] ELLS = { 3,5,7,11,13,17,19,23,29,31,37,41,43,47,53,59,61,67,71,73,79,83,89,97,101,103,107,
    109,113,127,131,137,139,149,151,157,163,167,173,179,181,191,193,197,199,211,223,227,229,233,239,241,251,257,
    263,269,271,277,281,283,293,307,311,313,317,331,337,347,349,353,359,367,373,587 };
  static final BigInteger P;
  static final BigInteger INV4;
  static {
    BigInteger q = FOUR;
    for (int l : ELLS) q = q.multiply(BigInteger.valueOf(l));
    P = q.subtract(BigInteger.ONE);
    INV4 = FOUR.modInverse(P);
  }
  static BigInteger m(BigInteger a, BigInteger b) { return a.multiply(b).mod(P); }
  static BigInteger s(BigInteger a, BigInteger b) { return Ov.sub(P, a, b); }
  static BigInteger a(BigInteger a, BigInteger b) { return Ov.add(P, a, b); }
  static BigInteger[] dbl(BigInteger a24, BigInteger[] p) {
    BigInteger u = a(p[0], p[1]), v = s(p[0], p[1]), x = m(u, u), y = m(v, v), c = s(x, y);
    return new BigInteger[] { m(x, y), m(c, a(y, m(a24, c))) };
  }
  static BigInteger[] add(BigInteger[] p, BigInteger[] q, BigInteger[] d) {
    BigInteger u = m(s(p[0], p[1]), a(q[0], q[1])), v = m(a(p[0], p[1]), s(q[0], q[1])), x = a(u, v), y = s(u, v);
    return new BigInteger[] { m(d[1], m(x, x)), m(d[0], m(y, y)) };
  }
  static BigInteger[] pt(Value p) { return new BigInteger[] { big(elem(p, 0)), big(elem(p, 1)) }; }
  static Value pt(BigInteger[] p) { return pair(Ov.u(p[0]), Ov.u(p[1])); }
  @TLAPlusOperator(identifier = "CMul", module = "CsidhFn", warn = false)
  public static Value cmul(Value av, Value pv, Value kv) {
    BigInteger a24 = m(a(big(av), TWO), INV4), k = big(kv);
    BigInteger[] p = pt(pv), r = p, q = dbl(a24, p);
    for (int i = k.bitLength() - 2; i >= 0; i--) {
      if (k.testBit(i)) { r = add(r, q, p); q = dbl(a24, q); }
      else { q = add(r, q, p); r = dbl(a24, r); }
    }
    return pt(r);
  }
  @TLAPlusOperator(identifier = "CIso", module = "CsidhFn", warn = false)
  public static Value ciso(Value av, Value kv, Value lv, Value pv) {
    int d = (Ov.i(lv) - 1) / 2;
    BigInteger aa = big(av), a24 = m(a(aa, TWO), INV4);
    BigInteger[] k = pt(kv), p = pt(pv), cur = k, prev = null;
    BigInteger s1 = BigInteger.ZERO, s2 = s1, pr = BigInteger.ONE, nx = pr, nz = pr;
    BigInteger[][] ks = new BigInteger[d + 1][];
    BigInteger[] xz = new BigInteger[d + 1], pre = new BigInteger[d + 1], ws = new BigInteger[d + 1];
    boolean zero = false;
    pre[0] = BigInteger.ONE;
    for (int i = 1; i <= d; i++) {
      if (i == 2) { prev = cur; cur = dbl(a24, k); }
      else if (i > 2) { BigInteger[] t = add(cur, k, prev); prev = cur; cur = t; }
      ks[i] = cur;
      xz[i] = m(cur[0], cur[1]);
      zero |= xz[i].signum() == 0;
      pre[i] = m(pre[i - 1], xz[i]);
    }
    if (zero) for (int i = 1; i <= d; i++) ws[i] = Ov.inv(P, xz[i]);
    else {                                    // simultaneous inversion
      BigInteger t = Ov.inv(P, pre[d]);
      for (int i = d; i >= 1; i--) { ws[i] = m(t, pre[i - 1]); t = m(t, xz[i]); }
    }
    for (int i = 1; i <= d; i++) {
      cur = ks[i];
      BigInteger w = ws[i];
      BigInteger x = m(m(cur[0], cur[0]), w), y = m(m(cur[1], cur[1]), w);
      s1 = a(s1, x); s2 = a(s2, y); pr = m(pr, x);
      nx = m(nx, s(m(p[0], x), p[1]));
      nz = m(nz, s(p[0], m(x, p[1])));
    }
    BigInteger a2 = m(m(pr, pr), a(aa, s(m(SIX, s2), m(SIX, s1))));
    return pair(Ov.u(a2), pt(new BigInteger[] { m(p[0], m(nx, nx)), m(p[1], m(nz, nz)) }));
  }

  // ---------- GF(p^2), SIDH ----------
  static final class E {
    final BigInteger r, i;
    E(BigInteger r, BigInteger i) { this.r = r; this.i = i; }
  }
  static E e(Value v) { return new E(big(elem(v, 0)), big(elem(v, 1))); }
  static Value e(E x) { return pair(Ov.u(x.r), Ov.u(x.i)); }
  static final class F {
    final BigInteger p;
    F(BigInteger p) { this.p = p; }
    E add(E x, E y) { return new E(Ov.add(p, x.r, y.r), Ov.add(p, x.i, y.i)); }
    E sub(E x, E y) { return new E(Ov.sub(p, x.r, y.r), Ov.sub(p, x.i, y.i)); }
    E mul(E x, E y) {
      BigInteger a = x.r.multiply(y.r), b = x.i.multiply(y.i), c = x.r.add(x.i).multiply(y.r.add(y.i));
      return new E(a.subtract(b).mod(p), c.subtract(a).subtract(b).mod(p));
    }
    E sq(E x) { return new E(x.r.add(x.i).multiply(x.r.subtract(x.i)).mod(p), x.r.multiply(x.i).shiftLeft(1).mod(p)); }
    E dblScalar(E x) { return add(x, x); }
    E inv(E x) {
      BigInteger d = Ov.inv(p, x.r.multiply(x.r).add(x.i.multiply(x.i)).mod(p));
      return new E(x.r.multiply(d).mod(p), x.i.negate().multiply(d).mod(p));
    }
    E[] dbl(E a24, E[] q) {
      E s = sq(add(q[0], q[1])), d = sq(sub(q[0], q[1])), c = sub(s, d);
      return new E[] { mul(s, d), mul(c, add(d, mul(a24, c))) };
    }
    E[] xadd(E[] x, E[] y, E[] d) {
      E u = mul(sub(x[0], x[1]), add(y[0], y[1])), v = mul(add(x[0], x[1]), sub(y[0], y[1]));
      return new E[] { mul(d[1], sq(add(u, v))), mul(d[0], sq(sub(u, v))) };
    }
    E a24(E a) { return mul(add(a, new E(TWO, BigInteger.ZERO)), inv(new E(FOUR, BigInteger.ZERO))); }
  }
  static E[] ep(Value v) { return new E[] { e(elem(v, 0)), e(elem(v, 1)) }; }
  static Value ep(E[] x) { return pair(e(x[0]), e(x[1])); }
  static final E ONE = new E(BigInteger.ONE, BigInteger.ZERO);

  @TLAPlusOperator(identifier = "XDblK", module = "SidhFn", warn = false)
  public static Value xdblk(Value p, Value a24, Value q, Value k) {
    F f = new F(big(p)); E a = e(a24); E[] r = ep(q);
    for (int n = Ov.i(k); n > 0; n--) r = f.dbl(a, r);
    return ep(r);
  }
  @TLAPlusOperator(identifier = "XTplK", module = "SidhFn", warn = false)
  public static Value xtplk(Value p, Value a24, Value q, Value k) {
    F f = new F(big(p)); E a = e(a24); E[] r = ep(q);
    for (int n = Ov.i(k); n > 0; n--) r = f.xadd(f.dbl(a, r), r, r);
    return ep(r);
  }
  @TLAPlusOperator(identifier = "Ladder3", module = "SidhFn", warn = false)
  public static Value ladder3(Value p, Value av, Value xp, Value xq, Value xd, Value m, Value n) {
    F f = new F(big(p)); E a = f.a24(e(av)); BigInteger k = big(m);
    E[] q = { e(xq), ONE }, r = { e(xp), ONE }, d = { e(xd), ONE };
    for (int i = 0; i < Ov.i(n); i++) {
      E[] q2 = f.dbl(a, q);
      if (k.testBit(i)) r = f.xadd(q, r, d); else d = f.xadd(q, d, r);
      q = q2;
    }
    return ep(r);
  }
  @TLAPlusOperator(identifier = "Iso4Eval", module = "SidhFn", warn = false)
  public static Value iso4(Value p, Value xv, Value pv) {
    F f = new F(big(p)); E x4 = e(xv); E[] P = ep(pv); E X = P[0], Z = P[1];
    E xx = f.sq(x4), q = f.sub(f.mul(X, x4), Z), r = f.sub(X, f.mul(x4, Z)), t = f.add(x4, x4);
    E n1 = f.sub(f.add(f.mul(X, xx), X), f.mul(t, Z));
    E d1 = f.sub(f.mul(t, X), f.mul(f.add(xx, ONE), Z));
    E num = f.mul(f.mul(n1, X), f.sq(q)), den = f.mul(f.mul(d1, Z), f.sq(r));
    return ep(new E[] { f.sub(new E(BigInteger.ZERO, BigInteger.ZERO), num), den });
  }
  @TLAPlusOperator(identifier = "Iso3Eval", module = "SidhFn", warn = false)
  public static Value iso3(Value p, Value xv, Value pv) {
    F f = new F(big(p)); E x3 = e(xv); E[] P = ep(pv);
    return ep(new E[] { f.mul(P[0], f.sq(f.sub(f.mul(P[0], x3), P[1]))), f.mul(P[1], f.sq(f.sub(P[0], f.mul(x3, P[1])))) });
  }
}
