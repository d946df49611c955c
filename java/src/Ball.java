/*
 * TLC operator overrides for module Ball (see spec/Ball.tla).
 *
 * The only thing implemented here is rigorous arithmetic on real numbers: a "vector" is one closed interval per
 * sample point, every operation returns intervals that contain the exact result for every choice of exact
 * arguments in the given intervals (outward rounding).  Encoding of an interval as four 32-bit TLA+ integers:
 * high and low words of the doubles lo and hi.  Two special intervals:
 *    UNDEF   lo=+inf hi=-inf : the operation has no real value for ANY of the arguments (log of a negative, ...)
 *    UNKNOWN lo=-inf hi=+inf : no information (straddles a singularity, overflow, ...)
 */
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import java.math.BigInteger;
import java.math.BigDecimal;

public class Ball {
  static final double PINF = Double.POSITIVE_INFINITY, NINF = Double.NEGATIVE_INFINITY;

  // ------------------------------------------------------------------ intervals
  static final class I {
    final double lo, hi;
    I(double l, double h) { lo = l; hi = h; }
    boolean undef() { return lo == PINF && hi == NINF; }
    boolean unk() { return lo == NINF || hi == PINF; }   // (after undef was excluded) half-infinite counts as unknown
  }
  static final I UNDEF = new I(PINF, NINF), UNK = new I(NINF, PINF);
  static I mk(double l, double h) {
    if (Double.isNaN(l) || Double.isNaN(h) || l == NINF || h == PINF || l == PINF || h == NINF) return UNK;
    if (Math.abs(l) > 1e290 || Math.abs(h) > 1e290) return UNK;
    return new I(l, h);
  }
  static double dn(double x) { return Math.nextDown(x); }
  static double up(double x) { return Math.nextUp(x); }
  static double dn(double x, int k) { for (int i = 0; i < k; i++) x = Math.nextDown(x); return x; }
  static double up(double x, int k) { for (int i = 0; i < k; i++) x = Math.nextUp(x); return x; }
  // exact point results stay points: 0*x, 1*x, sums of small integers ...
  static I out(double l, double h) { return mk(dn(l), up(h)); }

  static I add(I a, I b) {
    if (a.undef() || b.undef()) return UNDEF;
    if (a.unk() || b.unk()) return UNK;
    if (a.lo == a.hi && b.lo == b.hi && isInt(a.lo) && isInt(b.lo) && Math.abs(a.lo + b.lo) < 9e15) return mk(a.lo + b.lo, a.lo + b.lo);
    return out(a.lo + b.lo, a.hi + b.hi);
  }
  static boolean isInt(double x) { return Math.abs(x) < 9e15 && Math.rint(x) == x; }
  static I neg(I a) { if (a.undef()) return UNDEF; if (a.unk()) return UNK; return new I(-a.hi, -a.lo); }
  static I mul(I a, I b) {
    if (a.undef() || b.undef()) return UNDEF;
    if (a.unk() || b.unk()) return UNK;
    if ((a.lo == 0 && a.hi == 0) || (b.lo == 0 && b.hi == 0)) return new I(0, 0);
    double p = a.lo * b.lo, q = a.lo * b.hi, r = a.hi * b.lo, s = a.hi * b.hi;
    double l = Math.min(Math.min(p, q), Math.min(r, s)), h = Math.max(Math.max(p, q), Math.max(r, s));
    if (l == h && isInt(l) && a.lo == a.hi && b.lo == b.hi && isInt(a.lo) && isInt(b.lo)) return mk(l, h);
    return out(l, h);
  }
  static I inv(I a) {
    if (a.undef()) return UNDEF;
    if (a.unk()) return UNK;
    if (a.lo == 0 && a.hi == 0) return UNDEF;
    if (a.lo <= 0 && a.hi >= 0) return UNK;
    if (a.lo == a.hi && Math.abs(a.lo) == 1) return a;
    return out(1 / a.hi, 1 / a.lo);
  }
  static I abs(I a) {
    if (a.undef()) return UNDEF;
    if (a.unk()) return UNK;
    if (a.lo >= 0) return a;
    if (a.hi <= 0) return neg(a);
    return new I(0, Math.max(-a.lo, a.hi));
  }
  static I powi(I a, int n) {
    if (a.undef()) return UNDEF;
    if (n == 0) return new I(1, 1);
    if (a.unk()) return UNK;
    if (n < 0) return inv(powi(a, -n));
    // binary powering on |a|, then the sign; monotone on |a|
    I m = abs(a);
    I r = new I(1, 1), b = m;
    int k = n;
    while (k > 0) { if ((k & 1) == 1) r = mul(r, b); k >>= 1; if (k > 0) b = mul(b, b); if (r.unk() || b.unk()) return UNK; }
    r = new I(Math.max(r.lo, 0), r.hi);
    if ((n & 1) == 0 || a.lo >= 0) return r;
    if (a.hi <= 0) return neg(r);
    // odd power of an interval straddling zero
    return new I(-r.hi, r.hi);
  }
  // a^(p/q), q > 1, gcd(p,q)=1.  Real odd root convention for negative bases.
  static I powr(I a, int p, int q) {
    if (a.undef()) return UNDEF;
    if (a.unk()) return UNK;
    if (a.lo == 0 && a.hi == 0) return p > 0 ? new I(0, 0) : UNDEF;
    if (a.hi < 0) {
      if (q % 2 == 0) return UNDEF;
      I r = powr(neg(a), p, q);
      return p % 2 == 0 ? r : neg(r);
    }
    if (a.lo <= 0) {
      if (p < 0) return UNK;
      if (q % 2 == 0 || p % 2 != 0 && false) { /* part of it undefined */ return UNK; }
      I r = powr(new I(Double.MIN_NORMAL, Math.max(-a.lo, a.hi)), p, q);
      if (r.unk() || r.undef()) return UNK;
      return p % 2 == 0 ? new I(0, r.hi) : new I(-r.hi, r.hi);
    }
    double e = (double) p / (double) q;
    // exponent error: relative 2^-53 in e changes the result by a factor 1 + |e ln a| 2^-53
    double l, h;
    if (p > 0) { l = Math.pow(a.lo, e); h = Math.pow(a.hi, e); } else { l = Math.pow(a.hi, e); h = Math.pow(a.lo, e); }
    double rel = (Math.max(Math.abs(Math.log(a.lo)), Math.abs(Math.log(a.hi))) * Math.abs(e) + 4) * 0x1p-52;
    return mk(dn(l * (1 - rel)), up(h * (1 + rel)));
  }
  static I exp(I a) {
    if (a.undef()) return UNDEF;
    if (a.unk()) return UNK;
    if (a.lo == 0 && a.hi == 0) return new I(1, 1);
    double l = dn(Math.exp(a.lo), 2), h = up(Math.exp(a.hi), 2);
    return mk(Math.max(l, 0), h);
  }
  static I log(I a) {
    if (a.undef()) return UNDEF;
    if (a.unk()) return UNK;
    if (a.hi <= 0) return UNDEF;
    if (a.lo <= 0) return UNK;
    if (a.lo == 1 && a.hi == 1) return new I(0, 0);
    return mk(dn(Math.log(a.lo), 2), up(Math.log(a.hi), 2));
  }
  // sin/cos: Lipschitz constant 1
  static I sc(I a, boolean sine) {
    if (a.undef()) return UNDEF;
    if (a.unk()) return UNK;
    if (sine && a.lo == 0 && a.hi == 0) return new I(0, 0);
    double m = a.lo / 2 + a.hi / 2;
    double r = up(Math.max(up(a.hi - m), up(m - a.lo)), 1);
    if (r > 1) return new I(-1, 1);
    double v = sine ? Math.sin(m) : Math.cos(m);
    return mk(Math.max(-1, dn(v - r - 0x1p-52, 1)), Math.min(1, up(v + r + 0x1p-52, 1)));
  }
  static I asin(I a, int which) { // 0 asin 1 acos
    if (a.undef()) return UNDEF;
    if (a.unk()) return UNK;
    if (a.lo > 1 || a.hi < -1) return UNDEF;
    if (a.lo < -1 || a.hi > 1) return UNK;
    if (which == 0) {
      if (a.lo == 0 && a.hi == 0) return new I(0, 0);
      return mk(dn(Math.asin(a.lo), 3), up(Math.asin(a.hi), 3));
    }
    return mk(dn(Math.acos(a.hi) - 0x1p-50), up(Math.acos(a.lo) + 0x1p-50));
  }
  static I atan(I a) {
    if (a.undef()) return UNDEF;
    if (a.unk()) return UNK;
    if (a.lo == 0 && a.hi == 0) return a;
    return mk(dn(Math.atan(a.lo), 3), up(Math.atan(a.hi), 3));
  }
  static I pow(I a, I x) { // real exponent: positive base only
    if (a.undef() || x.undef()) return UNDEF;
    if (a.unk() || x.unk()) return UNK;
    if (x.lo == x.hi && isInt(x.lo) && Math.abs(x.lo) < 1e6) return powi(a, (int) x.lo);
    if (a.hi < 0) return UNDEF;
    if (a.lo <= 0) return UNK;
    return exp(mul(x, log(a)));
  }
  static I sign(I a) {
    if (a.undef()) return UNDEF;
    if (a.unk()) return UNK;
    if (a.lo > 0) return new I(1, 1);
    if (a.hi < 0) return new I(-1, -1);
    return UNK;
  }
  static I rat(BigInteger n, BigInteger d) {
    if (d.signum() == 0) return UNDEF;
    if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
    if (n.bitLength() < 53 && d.equals(BigInteger.ONE)) { double x = n.doubleValue(); return new I(x, x); }
    if (n.bitLength() < 53 && d.bitLength() < 53) {   // correctly rounded division of two exact doubles
      double v = n.doubleValue() / d.doubleValue();
      return mk(dn(v), up(v));
    }
    double v = new BigDecimal(n).divide(new BigDecimal(d), java.math.MathContext.DECIMAL128).doubleValue();
    return mk(dn(v, 2), up(v, 2));
  }

  // ------------------------------------------------------------------ encoding
  static int hw(double x) { return (int) (Double.doubleToRawLongBits(x) >>> 32); }
  static int lw(double x) { return (int) Double.doubleToRawLongBits(x); }
  static double dbl(Value h, Value l) {
    return Double.longBitsToDouble(((long) ((IntValue) h).val << 32) | (((IntValue) l).val & 0xffffffffL));
  }
  static TupleValue enc(I[] v) {
    Value[] out = new Value[4 * v.length];
    for (int i = 0; i < v.length; i++) {
      out[4 * i] = IntValue.gen(hw(v[i].lo)); out[4 * i + 1] = IntValue.gen(lw(v[i].lo));
      out[4 * i + 2] = IntValue.gen(hw(v[i].hi)); out[4 * i + 3] = IntValue.gen(lw(v[i].hi));
    }
    return new TupleValue(out);
  }
  static Value[] elems(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    return ((TupleValue) v.toTuple()).elems;
  }
  static I[] dec(Value v) {
    Value[] e = elems(v);
    I[] r = new I[e.length / 4];
    for (int i = 0; i < r.length; i++) r[i] = new I(dbl(e[4 * i], e[4 * i + 1]), dbl(e[4 * i + 2], e[4 * i + 3]));
    return r;
  }
  interface F1 { I f(I a); }
  interface F2 { I f(I a, I b); }
  static Value map(Value a, F1 f) { I[] x = dec(a); I[] r = new I[x.length]; for (int i = 0; i < r.length; i++) r[i] = f.f(x[i]); return enc(r); }
  static Value map(Value a, Value b, F2 f) {
    I[] x = dec(a), y = dec(b);
    if (x.length != y.length) throw new RuntimeException("Ball: vectors of different lengths");
    I[] r = new I[x.length];
    for (int i = 0; i < r.length; i++) r[i] = f.f(x[i], y[i]);
    return enc(r);
  }
  static BigInteger big(Value v) {
    if (v instanceof IntValue) return BigInteger.valueOf(((IntValue) v).val);
    return new BigInteger(((StringValue) v).val.toString());
  }
  static Value fill(Value p, I x) { I[] r = new I[((IntValue) p).val]; java.util.Arrays.fill(r, x); return enc(r); }

  // ------------------------------------------------------------------ operators
  static final String M = "Ball";
  @TLAPlusOperator(identifier = "VRat", module = M, warn = false)
  public static Value vrat(Value p, Value n, Value d) { return fill(p, rat(big(n), big(d))); }
  @TLAPlusOperator(identifier = "VFlt", module = M, warn = false)
  public static Value vflt(Value p, Value s) {
    double x = Double.parseDouble(((StringValue) s).val.toString());
    return fill(p, Double.isNaN(x) || Double.isInfinite(x) ? UNK : new I(x, x));
  }
  @TLAPlusOperator(identifier = "VPi", module = M, warn = false)
  public static Value vpi(Value p) { return fill(p, new I(Math.PI, up(Math.PI))); }
  @TLAPlusOperator(identifier = "VE", module = M, warn = false)
  public static Value ve(Value p) { return fill(p, new I(Math.E, up(Math.E))); }
  @TLAPlusOperator(identifier = "VUnknown", module = M, warn = false)
  public static Value vunk(Value p) { return fill(p, UNK); }
  @TLAPlusOperator(identifier = "VUndef", module = M, warn = false)
  public static Value vundef(Value p) { return fill(p, UNDEF); }
  // sequence of <<n, d>> -> vector
  @TLAPlusOperator(identifier = "VPoints", module = M, warn = false)
  public static Value vpoints(Value s) {
    Value[] e = elems(s);
    I[] r = new I[e.length];
    for (int i = 0; i < r.length; i++) { Value[] q = elems(e[i]); r[i] = rat(big(q[0]), big(q[1])); }
    return enc(r);
  }
  @TLAPlusOperator(identifier = "VAdd", module = M, warn = false)
  public static Value vadd(Value a, Value b) { return map(a, b, Ball::add); }
  @TLAPlusOperator(identifier = "VSub", module = M, warn = false)
  public static Value vsub(Value a, Value b) { return map(a, b, (x, y) -> add(x, neg(y))); }
  @TLAPlusOperator(identifier = "VMul", module = M, warn = false)
  public static Value vmul(Value a, Value b) { return map(a, b, Ball::mul); }
  @TLAPlusOperator(identifier = "VDiv", module = M, warn = false)
  public static Value vdiv(Value a, Value b) { return map(a, b, (x, y) -> mul(x, inv(y))); }
  @TLAPlusOperator(identifier = "VNeg", module = M, warn = false)
  public static Value vneg(Value a) { return map(a, Ball::neg); }
  @TLAPlusOperator(identifier = "VInv", module = M, warn = false)
  public static Value vinv(Value a) { return map(a, Ball::inv); }
  @TLAPlusOperator(identifier = "VAbs", module = M, warn = false)
  public static Value vabs(Value a) { return map(a, Ball::abs); }
  @TLAPlusOperator(identifier = "VSign", module = M, warn = false)
  public static Value vsign(Value a) { return map(a, Ball::sign); }
  @TLAPlusOperator(identifier = "VExp", module = M, warn = false)
  public static Value vexp(Value a) { return map(a, Ball::exp); }
  @TLAPlusOperator(identifier = "VLog", module = M, warn = false)
  public static Value vlog(Value a) { return map(a, Ball::log); }
  @TLAPlusOperator(identifier = "VSin", module = M, warn = false)
  public static Value vsin(Value a) { return map(a, x -> sc(x, true)); }
  @TLAPlusOperator(identifier = "VCos", module = M, warn = false)
  public static Value vcos(Value a) { return map(a, x -> sc(x, false)); }
  @TLAPlusOperator(identifier = "VAsin", module = M, warn = false)
  public static Value vasin(Value a) { return map(a, x -> asin(x, 0)); }
  @TLAPlusOperator(identifier = "VAcos", module = M, warn = false)
  public static Value vacos(Value a) { return map(a, x -> asin(x, 1)); }
  @TLAPlusOperator(identifier = "VAtan", module = M, warn = false)
  public static Value vatan(Value a) { return map(a, Ball::atan); }
  @TLAPlusOperator(identifier = "VPow", module = M, warn = false)
  public static Value vpow(Value a, Value b) { return map(a, b, Ball::pow); }
  // a^(n/d), n/d in lowest terms, d > 0; small integers (anything else is UNKNOWN)
  @TLAPlusOperator(identifier = "VPowRat", module = M, warn = false)
  public static Value vpowrat(Value a, Value n, Value d) {
    BigInteger p = big(n), q = big(d);
    if (p.bitLength() > 24 || q.bitLength() > 24) return map(a, x -> UNK);
    final int pi = p.intValue(), qi = q.intValue();
    if (qi == 1) return map(a, x -> powi(x, pi));
    return map(a, x -> powr(x, pi, qi));
  }
  @TLAPlusOperator(identifier = "VLen", module = M, warn = false)
  public static Value vlen(Value a) { return IntValue.gen(elems(a).length / 4); }

  // status per point: 0 undefined, 1 unknown, 2 defined
  static int st(I a) { return a.undef() ? 0 : a.unk() ? 1 : 2; }
  @TLAPlusOperator(identifier = "VStatus", module = M, warn = false)
  public static Value vstatus(Value a) {
    I[] x = dec(a); Value[] r = new Value[x.length];
    for (int i = 0; i < r.length; i++) r[i] = IntValue.gen(st(x[i]));
    return new TupleValue(r);
  }
  // masks are sequences of 0/1
  @TLAPlusOperator(identifier = "VPosMask", module = M, warn = false)
  public static Value vposmask(Value a) {
    I[] x = dec(a); Value[] r = new Value[x.length];
    for (int i = 0; i < r.length; i++) r[i] = IntValue.gen(st(x[i]) == 2 && x[i].lo > 0 ? 1 : 0);
    return new TupleValue(r);
  }
  @TLAPlusOperator(identifier = "VNonzeroMask", module = M, warn = false)
  public static Value vnzmask(Value a) {
    I[] x = dec(a); Value[] r = new Value[x.length];
    for (int i = 0; i < r.length; i++) r[i] = IntValue.gen(st(x[i]) == 2 && (x[i].lo > 0 || x[i].hi < 0) ? 1 : 0);
    return new TupleValue(r);
  }
  // |a| <= n/d for certain
  @TLAPlusOperator(identifier = "VWithinMask", module = M, warn = false)
  public static Value vwithin(Value a, Value lo, Value hi) {
    I[] x = dec(a), l = dec(lo), h = dec(hi); Value[] r = new Value[x.length];
    for (int i = 0; i < r.length; i++) r[i] = IntValue.gen(st(x[i]) == 2 && st(l[i]) == 2 && st(h[i]) == 2 && x[i].lo >= l[i].hi && x[i].hi <= h[i].lo ? 1 : 0);
    return new TupleValue(r);
  }
  @TLAPlusOperator(identifier = "MOnes", module = M, warn = false)
  public static Value mones(Value p) { Value[] r = new Value[((IntValue) p).val]; for (int i = 0; i < r.length; i++) r[i] = IntValue.gen(1); return new TupleValue(r); }
  @TLAPlusOperator(identifier = "MAnd", module = M, warn = false)
  public static Value mand(Value a, Value b) {
    Value[] x = elems(a), y = elems(b), r = new Value[x.length];
    for (int i = 0; i < r.length; i++) r[i] = IntValue.gen(((IntValue) x[i]).val & ((IntValue) y[i]).val);
    return new TupleValue(r);
  }
  // points where the mask is 0 become UNKNOWN
  @TLAPlusOperator(identifier = "VMask", module = M, warn = false)
  public static Value vmask(Value a, Value m) {
    I[] x = dec(a); Value[] y = elems(m);
    for (int i = 0; i < x.length; i++) if (((IntValue) y[i]).val == 0) x[i] = UNK;
    return enc(x);
  }
  // tolerance = 10^-k * max(1,|a|,|b|) + 1000 * (width a + width b); k = 0 means no tolerance: the intervals must meet.
  // Result <<both defined, disagreements, first disagreeing point, defined only in a, defined only in b>>
  @TLAPlusOperator(identifier = "VCmp", module = M, warn = false)
  public static Value vcmp(Value a, Value b, Value k) {
    I[] x = dec(a), y = dec(b);
    if (x.length != y.length) throw new RuntimeException("Ball: vectors of different lengths");
    int both = 0, bad = 0, first = 0, oa = 0, ob = 0, kk = ((IntValue) k).val;
    for (int i = 0; i < x.length; i++) {
      int sx = st(x[i]), sy = st(y[i]);
      if (sx == 2 && sy == 2) {
        both++;
        double tol = 0;
        if (kk > 0) {
          double s = Math.max(1, Math.max(Math.max(Math.abs(x[i].lo), Math.abs(x[i].hi)), Math.max(Math.abs(y[i].lo), Math.abs(y[i].hi))));
          tol = Math.pow(10, -kk) * s + 1000 * ((x[i].hi - x[i].lo) + (y[i].hi - y[i].lo));
        }
        if (x[i].lo - tol > y[i].hi || y[i].lo - tol > x[i].hi) { bad++; if (first == 0) first = i + 1; }
      } else if (sx == 2 && sy == 0) oa++;
      else if (sx == 0 && sy == 2) ob++;
    }
    return new TupleValue(new Value[]{IntValue.gen(both), IntValue.gen(bad), IntValue.gen(first), IntValue.gen(oa), IntValue.gen(ob)});
  }
  @TLAPlusOperator(identifier = "VShow", module = M, warn = false)
  public static Value vshow(Value a, Value i) {
    I x = dec(a)[((IntValue) i).val - 1];
    String s = x.undef() ? "undefined" : x.unk() ? "unknown" : Double.toString(x.lo / 2 + x.hi / 2) + "+/-" + String.format("%.1e", (x.hi - x.lo) / 2);
    return new StringValue(s);
  }
  // certainly smaller / larger comparisons of the i-th components; 2 = cannot tell
  @TLAPlusOperator(identifier = "VLess", module = M, warn = false)
  public static Value vless(Value a, Value b, Value i) {
    I x = dec(a)[((IntValue) i).val - 1], y = dec(b)[((IntValue) i).val - 1];
    if (st(x) != 2 || st(y) != 2) return IntValue.gen(2);
    if (x.hi < y.lo) return IntValue.gen(1);
    if (x.lo >= y.hi) return IntValue.gen(0);
    return IntValue.gen(2);
  }

  // ------------------------------------------------------------------ exact integers as decimal strings (module BigNum)
  // ------------------------------------------------------------------ integrals
  static double mid(I a) { return a.lo / 2 + a.hi / 2; }
  static double grid(I a, I b, int k, int n) { return k == 0 ? mid(a) : k == n ? mid(b) : mid(a) + (mid(b) - mid(a)) * k / n; }
  static boolean fin(I a) { return !a.undef() && !a.unk(); }
  @TLAPlusOperator(identifier = "VCells", module = M, warn = false)
  public static Value vcells(Value a, Value b, Value i, Value n) {
    I x = dec(a)[((IntValue) i).val - 1], y = dec(b)[((IntValue) i).val - 1];
    I[] r = new I[((IntValue) n).val];
    for (int k = 0; k < r.length; k++)
      if (!fin(x) || !fin(y)) r[k] = UNK;
      else {
        double p = grid(x, y, k, r.length), q = grid(x, y, k + 1, r.length), lo = Math.min(p, q), hi = Math.max(p, q);
        if (k == 0) { lo = Math.min(lo, x.lo); hi = Math.max(hi, x.hi); }
        if (k == r.length - 1) { lo = Math.min(lo, y.lo); hi = Math.max(hi, y.hi); }
        r[k] = mk(lo, hi);
      }
    return enc(r);
  }
  static double midpoint(I x, I y, int k, int n) { return grid(x, y, k, n) / 2 + grid(x, y, k + 1, n) / 2; }
  @TLAPlusOperator(identifier = "VMids", module = M, warn = false)
  public static Value vmids(Value a, Value b, Value i, Value n) {
    I x = dec(a)[((IntValue) i).val - 1], y = dec(b)[((IntValue) i).val - 1];
    I[] r = new I[((IntValue) n).val];
    for (int k = 0; k < r.length; k++) { if (!fin(x) || !fin(y)) r[k] = UNK; else { double m = midpoint(x, y, k, r.length); r[k] = mk(m, m); } }
    return enc(r);
  }
  @TLAPlusOperator(identifier = "VBcast", module = M, warn = false)
  public static Value vbcast(Value a, Value i, Value n) {
    I[] r = new I[((IntValue) n).val];
    java.util.Arrays.fill(r, dec(a)[((IntValue) i).val - 1]);
    return enc(r);
  }
  // f on the midpoints, f and f' on the cells; exact integral is in  sum h f(m) + [-1,1] (d2 - d1) h^2 / 8
  @TLAPlusOperator(identifier = "VQuad", module = M, warn = false)
  public static Value vquad(Value a, Value b, Value i, Value fm, Value fc, Value dc) {
    I x = dec(a)[((IntValue) i).val - 1], y = dec(b)[((IntValue) i).val - 1];
    I[] m = dec(fm), c = dec(fc), d = dec(dc);
    int n = m.length;
    if (!fin(x) || !fin(y)) return enc(new I[] { UNK });
    I s = new I(0, 0);
    for (int k = 0; k < n; k++) {
      if (!fin(c[k])) return enc(new I[] { UNK });
      I p = new I(grid(x, y, k, n), grid(x, y, k, n)), q = new I(grid(x, y, k + 1, n), grid(x, y, k + 1, n));
      I h = add(q, neg(p));                                   // signed
      I best = mul(h, c[k]);
      if (fin(m[k]) && fin(d[k])) {
        double mm = midpoint(x, y, k, n), off = up(Math.max(Math.abs(q.lo - mm - (mm - p.lo)), 0));   // rounding of the midpoint
        double hw = up(Math.max(Math.abs(q.lo - mm), Math.abs(mm - p.lo)));
        double err = up(up((d[k].hi - d[k].lo)) * hw * hw / 2 * (1 + 1e-12)) + up(up(off * 2) * hw * Math.max(Math.abs(d[k].lo), Math.abs(d[k].hi)));
        I t = add(mul(h, m[k]), new I(-err, err));
        if (t.hi - t.lo < best.hi - best.lo) best = t;
      }
      s = add(s, best);
    }
    // the ends are only known up to an enclosure
    for (I e : new I[] { mul(c[0], new I(0, up(x.hi - x.lo))), mul(c[n - 1], new I(0, up(y.hi - y.lo))) }) {
      double w = Math.max(Math.abs(e.lo), Math.abs(e.hi));
      s = add(s, new I(-w, w));
    }
    return enc(new I[] { s });
  }

  static final String B = "BigNum";
  static Value str(BigInteger x) { return new StringValue(x.toString()); }
  @TLAPlusOperator(identifier = "BAdd", module = B, warn = false)
  public static Value badd(Value a, Value b) { return str(big(a).add(big(b))); }
  @TLAPlusOperator(identifier = "BMul", module = B, warn = false)
  public static Value bmul(Value a, Value b) { return str(big(a).multiply(big(b))); }
  @TLAPlusOperator(identifier = "BNeg", module = B, warn = false)
  public static Value bneg(Value a) { return str(big(a).negate()); }
  @TLAPlusOperator(identifier = "BDivFloor", module = B, warn = false)
  public static Value bdiv(Value a, Value b) {
    BigInteger[] qr = big(a).divideAndRemainder(big(b));
    return str(qr[1].signum() != 0 && (qr[1].signum() != big(b).signum()) ? qr[0].subtract(BigInteger.ONE) : qr[0]);
  }
  @TLAPlusOperator(identifier = "BGcd", module = B, warn = false)
  public static Value bgcd(Value a, Value b) { return str(big(a).gcd(big(b))); }
  @TLAPlusOperator(identifier = "BSgn", module = B, warn = false)
  public static Value bsgn(Value a) { return IntValue.gen(big(a).signum()); }
  @TLAPlusOperator(identifier = "BStr", module = B, warn = false)
  public static Value bstr(Value a) { return str(big(a)); }
  @TLAPlusOperator(identifier = "BPow", module = B, warn = false)
  public static Value bpow(Value a, Value n) { return str(big(a).pow(((IntValue) n).val)); }
  // exact k-th root of a natural number, "" if there is none
  @TLAPlusOperator(identifier = "BRoot", module = B, warn = false)
  public static Value broot(Value a, Value k) {
    BigInteger n = big(a);
    int e = ((IntValue) k).val;
    if (n.signum() < 0) return new StringValue("");
    BigInteger lo = BigInteger.ZERO, hi = BigInteger.ONE.shiftLeft(n.bitLength() / e + 1);
    while (lo.compareTo(hi) < 0) {
      BigInteger mid = lo.add(hi).add(BigInteger.ONE).shiftRight(1);
      if (mid.pow(e).compareTo(n) <= 0) lo = mid; else hi = mid.subtract(BigInteger.ONE);
    }
    return lo.pow(e).equals(n) ? str(lo) : new StringValue("");
  }
  // numerator and denominator of the double whose repr is given
  static BigInteger[] frac(Value s) {
    java.math.BigDecimal d = new java.math.BigDecimal(Double.parseDouble(((StringValue) s).val.toString()));
    BigInteger n = d.unscaledValue(), m = BigInteger.ONE;
    if (d.scale() > 0) m = BigInteger.TEN.pow(d.scale()); else n = n.multiply(BigInteger.TEN.pow(-d.scale()));
    BigInteger g = n.gcd(m);
    return new BigInteger[] { n.divide(g), m.divide(g) };
  }
  @TLAPlusOperator(identifier = "BFltN", module = B, warn = false)
  public static Value bfltn(Value s) { return str(frac(s)[0]); }
  @TLAPlusOperator(identifier = "BFltD", module = B, warn = false)
  public static Value bfltd(Value s) { return str(frac(s)[1]); }
}
