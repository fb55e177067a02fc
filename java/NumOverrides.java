// TLC operator overrides for module Num (exact rational arithmetic).
// A number is a TLA+ integer, or a string: "p", "p/q" (decimal), a C99 hex float ("0x1.8p+3"),
// a decimal float, or one of "nan", "inf", "-inf".  Results are canonical strings "p" or "p/q" (q>1, reduced).
// Arithmetic with a non-finite operand gives "nan"; comparisons with "nan" are FALSE.
import java.math.BigDecimal;
import java.math.BigInteger;
import java.util.HashMap;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

public class NumOverrides implements ITLCOverrides {
  @Override public Class[] get() { return new Class[] {NumOverrides.class}; }

  static final BigInteger ONE = BigInteger.ONE, ZERO = BigInteger.ZERO;
  static final class R {
    final BigInteger n, d; final int k; // k: 0 finite, 1 inf, -1 -inf, 2 nan
    R(BigInteger n, BigInteger d, int k) { this.n = n; this.d = d; this.k = k; }
    static R of(BigInteger n, BigInteger d) {
      if (d.signum() == 0) return NAN;
      if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
      if (!d.equals(ONE)) {
        BigInteger g = n.gcd(d);
        if (!g.equals(ONE)) { n = n.divide(g); d = d.divide(g); }
      }
      return new R(n, d, 0);
    }
    static R of(double v) {
      if (Double.isNaN(v)) return NAN;
      if (Double.isInfinite(v)) return v > 0 ? INF : NINF;
      BigDecimal b = new BigDecimal(v);
      BigInteger u = b.unscaledValue(); int s = b.scale();
      return s <= 0 ? of(u.multiply(BigInteger.TEN.pow(-s)), ONE) : of(u, BigInteger.TEN.pow(s));
    }
    boolean fin() { return k == 0; }
    double dbl() {
      if (k == 1) return Double.POSITIVE_INFINITY;
      if (k == -1) return Double.NEGATIVE_INFINITY;
      if (k == 2) return Double.NaN;
      return new BigDecimal(n).divide(new BigDecimal(d), java.math.MathContext.DECIMAL128).doubleValue();
    }
    @Override public String toString() {
      if (k == 1) return "inf"; if (k == -1) return "-inf"; if (k == 2) return "nan";
      return d.equals(ONE) ? n.toString() : n.toString() + "/" + d.toString();
    }
  }
  static final R NAN = new R(ZERO, ONE, 2), INF = new R(ONE, ONE, 1), NINF = new R(ONE.negate(), ONE, -1);
  static final R RZ = new R(ZERO, ONE, 0);
  static final HashMap<String, R> cache = new HashMap<>();

  static synchronized R get(Value v) {
    if (v instanceof IntValue) return new R(BigInteger.valueOf(((IntValue) v).val), ONE, 0);
    if (v instanceof StringValue) {
      String s = ((StringValue) v).val.toString();
      R r = cache.get(s);
      if (r == null) {
        r = parse(s);
        if (cache.size() > 400000) cache.clear();
        cache.put(s, r);
      }
      return r;
    }
    throw new RuntimeException("Num: not a number: " + v);
  }
  static R parse(String s) {
    s = s.trim();
    switch (s) { case "nan": case "-nan": return NAN; case "inf": return INF; case "-inf": return NINF; default: }
    int i = s.indexOf('/');
    if (i >= 0) return R.of(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
    if (s.indexOf('x') >= 0) return R.of(Double.parseDouble(s.indexOf('p') < 0 ? s + "p0" : s));
    if (s.indexOf('.') >= 0 || s.indexOf('e') >= 0 || s.indexOf('E') >= 0) {
      BigDecimal b = new BigDecimal(s);
      BigInteger u = b.unscaledValue(); int sc = b.scale();
      return sc <= 0 ? R.of(u.multiply(BigInteger.TEN.pow(-sc)), ONE) : R.of(u, BigInteger.TEN.pow(sc));
    }
    return R.of(new BigInteger(s), ONE);
  }
  static Value put(R r) {
    String s = r.toString();
    synchronized (NumOverrides.class) { if (cache.size() < 400000) cache.put(s, r); }
    return new StringValue(s);
  }
  static R add(R a, R b) {
    if (!a.fin() || !b.fin()) return NAN;
    if (a.d.equals(b.d)) return R.of(a.n.add(b.n), a.d);
    return R.of(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
  }
  static R neg(R a) { return a.k == 2 ? NAN : a.k == 1 ? NINF : a.k == -1 ? INF : new R(a.n.negate(), a.d, 0); }
  static R mul(R a, R b) { return (!a.fin() || !b.fin()) ? NAN : R.of(a.n.multiply(b.n), a.d.multiply(b.d)); }
  static R abs(R a) { return a.k == -1 ? INF : a.fin() ? new R(a.n.abs(), a.d, 0) : a; }
  static int cmp(R a, R b) { // both non-nan
    if (a.fin() && b.fin()) return a.n.multiply(b.d).compareTo(b.n.multiply(a.d));
    int x = a.fin() ? 0 : a.k, y = b.fin() ? 0 : b.k;
    return Integer.compare(x, y);
  }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static Value[] seq(Value v) {
    Value t = (Value) v.toTuple();
    if (t == null) throw new RuntimeException("Num: not a sequence: " + v);
    return ((TupleValue) t).elems;
  }

  @TLAPlusOperator(identifier = "NVal", module = "Num", warn = false)
  public static Value NVal(Value a) { return put(get(a)); }
  @TLAPlusOperator(identifier = "NAdd", module = "Num", warn = false)
  public static Value NAdd(Value a, Value b) { return put(add(get(a), get(b))); }
  @TLAPlusOperator(identifier = "NSub", module = "Num", warn = false)
  public static Value NSub(Value a, Value b) { return put(add(get(a), neg(get(b)))); }
  @TLAPlusOperator(identifier = "NMul", module = "Num", warn = false)
  public static Value NMul(Value a, Value b) { return put(mul(get(a), get(b))); }
  @TLAPlusOperator(identifier = "NDiv", module = "Num", warn = false)
  public static Value NDiv(Value a, Value b) {
    R x = get(a), y = get(b);
    if (!x.fin() || !y.fin() || y.n.signum() == 0) return put(NAN);
    return put(R.of(x.n.multiply(y.d), x.d.multiply(y.n)));
  }
  @TLAPlusOperator(identifier = "NNeg", module = "Num", warn = false)
  public static Value NNeg(Value a) { return put(neg(get(a))); }
  @TLAPlusOperator(identifier = "NAbs", module = "Num", warn = false)
  public static Value NAbs(Value a) { return put(abs(get(a))); }
  @TLAPlusOperator(identifier = "NLt", module = "Num", warn = false)
  public static Value NLt(Value a, Value b) { R x = get(a), y = get(b); return bool(x.k != 2 && y.k != 2 && cmp(x, y) < 0); }
  @TLAPlusOperator(identifier = "NLe", module = "Num", warn = false)
  public static Value NLe(Value a, Value b) { R x = get(a), y = get(b); return bool(x.k != 2 && y.k != 2 && cmp(x, y) <= 0); }
  @TLAPlusOperator(identifier = "NEq", module = "Num", warn = false)
  public static Value NEq(Value a, Value b) { R x = get(a), y = get(b); return bool(x.k != 2 && y.k != 2 && cmp(x, y) == 0); }
  @TLAPlusOperator(identifier = "NFin", module = "Num", warn = false)
  public static Value NFin(Value a) { return bool(get(a).fin()); }
  @TLAPlusOperator(identifier = "NMax", module = "Num", warn = false)
  public static Value NMax(Value a, Value b) { R x = get(a), y = get(b); return put(x.k == 2 || y.k == 2 ? NAN : cmp(x, y) >= 0 ? x : y); }
  @TLAPlusOperator(identifier = "NMin", module = "Num", warn = false)
  public static Value NMin(Value a, Value b) { R x = get(a), y = get(b); return put(x.k == 2 || y.k == 2 ? NAN : cmp(x, y) <= 0 ? x : y); }
  @TLAPlusOperator(identifier = "NSum", module = "Num", warn = false)
  public static Value NSum(Value s) { R t = RZ; for (Value v : seq(s)) t = add(t, get(v)); return put(t); }
  @TLAPlusOperator(identifier = "NDot", module = "Num", warn = false)
  public static Value NDot(Value a, Value b) {
    Value[] x = seq(a), y = seq(b);
    if (x.length != y.length) return put(NAN);
    R t = RZ;
    for (int i = 0; i < x.length; i++) t = add(t, mul(get(x[i]), get(y[i])));
    return put(t);
  }
  // |a-b| <= atol + rtol*max(|a|,|b|); non-finite values only match themselves
  @TLAPlusOperator(identifier = "NClose", module = "Num", warn = false)
  public static Value NClose(Value a, Value b, Value rt, Value at) {
    R x = get(a), y = get(b);
    if (!x.fin() || !y.fin()) return bool(x.k == y.k && x.k != 2);
    R d = abs(add(x, neg(y)));
    if (d.n.signum() == 0) return bool(true);
    R ax = abs(x), ay = abs(y), m = cmp(ax, ay) >= 0 ? ax : ay;
    return bool(cmp(d, add(get(at), mul(get(rt), m))) <= 0);
  }
  // nearest IEEE double / float, as an exact rational
  @TLAPlusOperator(identifier = "NDouble", module = "Num", warn = false)
  public static Value NDouble(Value a) { return put(R.of(get(a).dbl())); }
  @TLAPlusOperator(identifier = "NFloat", module = "Num", warn = false)
  public static Value NFloat(Value a) {
    R x = get(a);
    if (!x.fin()) return put(x);
    float f = new BigDecimal(x.n).divide(new BigDecimal(x.d), java.math.MathContext.DECIMAL128).floatValue();
    return put(R.of((double) f));
  }
  @TLAPlusOperator(identifier = "NSin", module = "Num", warn = false)
  public static Value NSin(Value a) { return put(R.of(StrictMath.sin(get(a).dbl()))); }
  @TLAPlusOperator(identifier = "NCos", module = "Num", warn = false)
  public static Value NCos(Value a) { return put(R.of(StrictMath.cos(get(a).dbl()))); }
  @TLAPlusOperator(identifier = "NSqrt", module = "Num", warn = false)
  public static Value NSqrt(Value a) { return put(R.of(StrictMath.sqrt(get(a).dbl()))); }
  // integer part (floor) as a TLA+ integer
  @TLAPlusOperator(identifier = "NFloor", module = "Num", warn = false)
  public static Value NFloor(Value a) {
    R x = get(a);
    BigInteger[] q = x.n.divideAndRemainder(x.d);
    BigInteger f = (x.n.signum() < 0 && q[1].signum() != 0) ? q[0].subtract(ONE) : q[0];
    return IntValue.gen(f.intValueExact());
  }
  // identity, but evaluates its argument completely (TLC function constructors are lazy)
  static Value force(Value v) {
    if (v instanceof StringValue || v instanceof IntValue || v instanceof BoolValue) return v;
    if (v instanceof RecordValue) {
      RecordValue r = (RecordValue) v;
      Value[] w = new Value[r.values.length];
      for (int i = 0; i < w.length; i++) w[i] = force(r.values[i]);
      return new RecordValue(r.names, w, r.isNormalized());
    }
    Value t = (Value) v.toTuple();
    if (t instanceof TupleValue) {
      Value[] e = ((TupleValue) t).elems;
      Value[] w = new Value[e.length];
      for (int i = 0; i < w.length; i++) w[i] = force(e[i]);
      return new TupleValue(w);
    }
    v.deepNormalize();
    return v;
  }
  @TLAPlusOperator(identifier = "Strict", module = "Num", warn = false)
  public static Value Strict(Value v) { return force(v); }
  // round every number in a nested sequence/record to the nearest double
  static Value rnd(Value v) {
    if (v instanceof StringValue || v instanceof IntValue) return put(R.of(get(v).dbl()));
    if (v instanceof RecordValue) {
      RecordValue r = (RecordValue) v;
      Value[] w = new Value[r.values.length];
      for (int i = 0; i < w.length; i++) w[i] = rnd(r.values[i]);
      return new RecordValue(r.names, w, r.isNormalized());
    }
    Value[] e = seq(v);
    Value[] w = new Value[e.length];
    for (int i = 0; i < w.length; i++) w[i] = rnd(e[i]);
    return new TupleValue(w);
  }
  @TLAPlusOperator(identifier = "Rnd", module = "Num", warn = false)
  public static Value Rnd(Value v) { return rnd(v); }
  // C-like formatting, used for the printing spec: NFmt(spec, x) = String.format(spec, double)
  @TLAPlusOperator(identifier = "NFmtE", module = "Num", warn = false)
  public static Value NFmtE(Value prec, Value a) {
    return new StringValue(String.format("%." + ((IntValue) prec).val + "e", get(a).dbl()));
  }
  @TLAPlusOperator(identifier = "NFmtF", module = "Num", warn = false)
  public static Value NFmtF(Value prec, Value a) {
    return new StringValue(String.format("%." + ((IntValue) prec).val + "f", get(a).dbl()));
  }
}
