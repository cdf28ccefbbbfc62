import java.math.BigInteger;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;

/** TLC evaluation of the operators of RtNum.tla: exact rationals, with a sticky error mark. */
public class RtNum {
  static final class Num {
    final BigInteger p, q;   // exact
    final double v, e;       // inexact when p == null
    String s;
    Num(BigInteger p, BigInteger q) { this.p = p; this.q = q; this.v = 0; this.e = 0; }
    Num(double v, double e) { this.p = null; this.q = null; this.v = v; this.e = e; }
    boolean exact() { return p != null; }
    double d() { return exact() ? ratio(p, q) : v; }
    double err() { return exact() ? 0.0 : e; }
    public String toString() {
      if (s == null) {
        if (exact()) s = q.equals(BigInteger.ONE) ? p.toString() : p + "/" + q;
        else s = "~" + v + "@" + e;
      }
      return s;
    }
  }

  static double ratio(BigInteger p, BigInteger q) {
    if (p.bitLength() < 1000 && q.bitLength() < 1000 && p.bitLength() <= 53 && q.bitLength() <= 53)
      return p.doubleValue() / q.doubleValue();
    return new java.math.BigDecimal(p).divide(new java.math.BigDecimal(q), new java.math.MathContext(40)).doubleValue();
  }

  static final ConcurrentHashMap<String, Num> cache = new ConcurrentHashMap<>();

  static Num parse(String s) {
    Num n = cache.get(s);
    if (n != null) return n;
    if (s.startsWith("~")) {
      int at = s.indexOf('@');
      n = new Num(Double.parseDouble(s.substring(1, at)), Double.parseDouble(s.substring(at + 1)));
    } else {
      int sl = s.indexOf('/');
      if (sl < 0) n = new Num(new BigInteger(s), BigInteger.ONE);
      else n = norm(new BigInteger(s.substring(0, sl)), new BigInteger(s.substring(sl + 1)));
    }
    n.s = s;
    if (cache.size() < 2000000) cache.put(s, n);
    return n;
  }

  static Num of(Value v) { return parse(((StringValue) v).getVal().toString()); }
  static StringValue val(Num n) { return new StringValue(n.toString()); }

  static Num norm(BigInteger p, BigInteger q) {
    if (q.signum() < 0) { p = p.negate(); q = q.negate(); }
    BigInteger g = p.gcd(q);
    if (!g.equals(BigInteger.ONE) && g.signum() != 0) { p = p.divide(g); q = q.divide(g); }
    return new Num(p, q);
  }

  /**
   * Exact results stay within numbers that doubles add without rounding, many of them and in any order;
   * any other result becomes a marked one.
   */
  static Num fit(Num n) {
    if (!n.exact()) return n;
    boolean small = n.q.bitCount() == 1 && n.q.bitLength() <= 11 && n.p.abs().bitLength() - n.q.bitLength() < 40;
    return small ? n : inex(n.d(), 0);
  }

  static Num inex(double v, double e) {
    return new Num(v, e + 1e-9 * Math.max(1.0, Math.abs(v)));
  }

  static Num add(Num a, Num b) {
    if (a.exact() && b.exact()) return fit(norm(a.p.multiply(b.q).add(b.p.multiply(a.q)), a.q.multiply(b.q)));
    double r = a.d() + b.d();
    return new Num(r, a.err() + b.err() + 1e-12 * Math.abs(r));
  }
  static Num neg(Num a) { return a.exact() ? new Num(a.p.negate(), a.q) : new Num(-a.v, a.e); }
  static Num sub(Num a, Num b) { return add(a, neg(b)); }
  static Num mul(Num a, Num b) {
    if (a.exact() && b.exact()) return fit(norm(a.p.multiply(b.p), a.q.multiply(b.q)));
    if (a.exact() && a.p.signum() == 0) return a;
    if (b.exact() && b.p.signum() == 0) return b;
    double r = a.d() * b.d();
    return new Num(r, Math.abs(a.d()) * b.err() + Math.abs(b.d()) * a.err() + a.err() * b.err() + 1e-12 * Math.abs(r));
  }
  static Num div(Num a, Num b) {
    if (a.exact() && b.exact()) return fit(norm(a.p.multiply(b.q), a.q.multiply(b.p)));
    if (a.exact() && a.p.signum() == 0) return a;
    double r = a.d() / b.d();
    double bd = Math.abs(b.d()) - b.err();
    if (!(bd > 0)) return new Num(r, Double.POSITIVE_INFINITY);
    return new Num(r, (a.err() + Math.abs(r) * b.err()) / bd + 1e-12 * Math.abs(r) + (b.exact() ? 0 : 1e-12));
  }
  static int cmp(Num a, Num b) {
    if (a.exact() && b.exact()) return a.p.multiply(b.q).compareTo(b.p.multiply(a.q));
    return Double.compare(a.d(), b.d() == 0 ? 0.0 : b.d());
  }
  static boolean amb(Num a, Num b) {
    if (a.exact() && b.exact()) return false;
    double d = Math.abs(a.d() - b.d());
    return !(d > a.err() + b.err());
  }

  static Num[] seq(Value s) {
    TupleValue t = (TupleValue) s.toTuple();
    Num[] r = new Num[t.elems.length];
    for (int i = 0; i < r.length; i++) r[i] = of(t.elems[i]);
    return r;
  }
  static Num sum(Num[] s) {
    Num r = new Num(BigInteger.ZERO, BigInteger.ONE);
    boolean ex = true;
    for (Num n : s) ex &= n.exact();
    if (ex) { // exact sum first, so that the order of the additions does not matter
      for (Num n : s) r = norm(r.p.multiply(n.q).add(n.p.multiply(r.q)), r.q.multiply(n.q));
      return fit(r);
    }
    for (Num n : s) r = add(r, n);
    return r;
  }

  public static Value NI(final Value i) { return val(new Num(BigInteger.valueOf(((IntValue) i).val), BigInteger.ONE)); }
  public static Value NAdd(final Value a, final Value b) { return val(add(of(a), of(b))); }
  public static Value NSub(final Value a, final Value b) { return val(sub(of(a), of(b))); }
  public static Value NMul(final Value a, final Value b) { return val(mul(of(a), of(b))); }
  public static Value NDiv(final Value a, final Value b) { return val(div(of(a), of(b))); }
  public static Value NNeg(final Value a) { return val(neg(of(a))); }
  public static Value NLt(final Value a, final Value b) { return cmp(of(a), of(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value NLe(final Value a, final Value b) { return cmp(of(a), of(b)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value NEq(final Value a, final Value b) { return cmp(of(a), of(b)) == 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value NAmb(final Value a, final Value b) { return amb(of(a), of(b)) ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value NExact(final Value a) { return of(a).exact() ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value NMax(final Value s) {
    Num[] n = seq(s); Num m = n[0];
    for (Num x : n) if (cmp(x, m) > 0) m = x;
    return val(m);
  }
  public static Value NSum(final Value s) { return val(sum(seq(s))); }
  public static Value NDot(final Value s, final Value t) {
    Num[] a = seq(s), b = seq(t), c = new Num[a.length];
    for (int i = 0; i < a.length; i++) c[i] = mul(a[i], b[i]);
    return val(sum(c));
  }
  public static Value NSqrt(final Value a) {
    Num n = of(a); double r = Math.sqrt(Math.max(0, n.d()));
    double e = n.exact() ? 0 : Math.min(Math.sqrt(n.e), r > 0 ? n.e / r : Double.MAX_VALUE);
    return val(inex(r, e));
  }
  public static Value NPow(final Value a, final Value b) {
    Num x = of(a), k = of(b);
    if (x.exact() && k.exact() && k.q.equals(BigInteger.ONE) && k.p.abs().bitLength() < 8) {
      int n = k.p.intValue();
      if (n >= 0) return val(fit(new Num(x.p.pow(n), x.q.pow(n))));
      if (x.p.signum() != 0) return val(fit(norm(x.q.pow(-n), x.p.pow(-n))));
    }
    double r = Math.pow(x.d(), k.d());
    double e = x.exact() && k.exact() ? 0
        : Math.abs(k.d() * Math.pow(Math.abs(x.d()) + x.err(), k.d() - 1)) * x.err() + 1e-9 * Math.abs(r);
    return val(inex(r, e));
  }
  public static Value NStd(final Value s) {
    Num[] x = seq(s); int n = x.length;
    boolean ex = true; double m = 0, e = 0;
    for (Num y : x) { ex &= y.exact(); m = Math.max(m, Math.abs(y.d())); e = Math.max(e, y.err()); }
    double var;
    if (ex) {
      BigInteger N = BigInteger.valueOf(n);
      Num t = new Num(BigInteger.ZERO, BigInteger.ONE);
      for (Num y : x) t = norm(t.p.multiply(y.q).add(y.p.multiply(t.q)), t.q.multiply(y.q));
      Num av = norm(t.p, t.q.multiply(N));
      Num acc = new Num(BigInteger.ZERO, BigInteger.ONE);
      for (Num y : x) {
        Num d = norm(y.p.multiply(av.q).subtract(av.p.multiply(y.q)), y.q.multiply(av.q));
        Num d2 = norm(d.p.multiply(d.p), d.q.multiply(d.q));
        acc = norm(acc.p.multiply(d2.q).add(d2.p.multiply(acc.q)), acc.q.multiply(d2.q));
      }
      var = ratio(acc.p, acc.q.multiply(BigInteger.valueOf(n - 1)));
    } else {
      double av = 0; for (Num y : x) av += y.d(); av /= n;
      var = 0; for (Num y : x) var += (y.d() - av) * (y.d() - av);
      var /= (n - 1);
    }
    // each deviation is off by at most 2e, so is the root of the mean square (times sqrt(n/(n-1)))
    return val(inex(Math.sqrt(var), 4 * e + 1e-9 * m));
  }
  public static Value NCos(final Value y1, final Value y2, final Value p, final Value q) {
    Num a = of(y1), b = of(y2);
    double mu = (double) ((IntValue) p).val / (double) ((IntValue) q).val;
    double m = (1 - Math.cos(Math.PI * mu)) / 2;
    double sc = Math.max(Math.abs(a.d()), Math.abs(b.d()));
    return val(inex(a.d() * (1 - m) + b.d() * m, a.err() + b.err() + 1e-9 * sc));
  }
  public static Value NFloor(final Value a) {
    Num n = of(a);
    if (!n.exact()) return IntValue.gen((int) Math.floor(n.v));
    BigInteger[] qr = n.p.divideAndRemainder(n.q);
    int f = qr[0].intValue();
    return IntValue.gen(qr[1].signum() < 0 ? f - 1 : f);
  }
  public static Value NHuge(final Value a) {
    Num n = of(a);
    return Math.abs(n.d()) <= 1e7 && n.err() <= 1e-2 ? BoolValue.ValFalse : BoolValue.ValTrue;
  }
  public static Value NAbs(final Value a) { return val(of(a).d() < 0 ? neg(of(a)) : of(a)); }
  public static Value NClose(final Value a, final Value x, final Value scale) {
    Num n = of(a); double sc = of(scale).d(); double g;
    try { g = Double.parseDouble(((StringValue) x).getVal().toString()); } catch (NumberFormatException ex) { return BoolValue.ValFalse; }
    double m = Math.max(Math.abs(n.d()), 1);
    double tol = n.exact() ? 1e-11 * m : n.err() + 1e-9 * m + 1e-12 * sc;
    return Math.abs(g - n.d()) <= tol ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  public static Value NSame(final Value a, final Value x) {
    Num n = of(a);
    try { return n.d() == Double.parseDouble(((StringValue) x).getVal().toString()) ? BoolValue.ValTrue : BoolValue.ValFalse; }
    catch (NumberFormatException ex) { return BoolValue.ValFalse; }
  }
}
