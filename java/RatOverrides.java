import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Arbitrary-precision evaluation of the operators of spec/Rat.tla. */
public class RatOverrides implements ITLCOverrides {
  @SuppressWarnings("rawtypes")
  @Override public Class[] get() { return new Class[] { RatOverrides.class }; }

  static final BigInteger ONE = BigInteger.ONE, ZERO = BigInteger.ZERO;

  static final class R extends UserObj {
    final BigInteger n, d;
    R(BigInteger n, BigInteger d, boolean norm) {
      if (norm) {
        if (d.signum() == 0) throw new ArithmeticException("rational with denominator 0");
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        if (!d.equals(ONE)) {
          BigInteger g = n.gcd(d);
          if (!g.equals(ONE)) { n = n.divide(g); d = d.divide(g); }
        }
      }
      this.n = n; this.d = d;
    }
    static R i(long k) { return new R(BigInteger.valueOf(k), ONE, false); }
    R add(R o) {
      if (d.equals(o.d)) return new R(n.add(o.n), d, true);
      return new R(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d), true);
    }
    R neg() { return new R(n.negate(), d, false); }
    R sub(R o) { return add(o.neg()); }
    R mul(R o) { return new R(n.multiply(o.n), d.multiply(o.d), true); }
    R div(R o) { return new R(n.multiply(o.d), d.multiply(o.n), true); }
    int cmp(R o) { return d.equals(o.d) ? n.compareTo(o.n) : n.multiply(o.d).compareTo(o.n.multiply(d)); }
    String str() { return d.equals(ONE) ? n.toString() : n + "/" + d; }
    @Override public int compareTo(Value v) {
      if (v instanceof UserValue && ((UserValue) v).userObj instanceof R) return cmp((R) ((UserValue) v).userObj);
      throw new RuntimeException("comparing the rational " + str() + " with " + v);
    }
    @Override public boolean member(Value v) { throw new RuntimeException("a rational is not a set"); }
    @Override public boolean isFinite() { return true; }
    @Override public StringBuffer toString(StringBuffer sb, int off, boolean sw) { return sb.append('"').append(str()).append('"'); }
  }

  static R r(Value v) {
    if (v instanceof UserValue && ((UserValue) v).userObj instanceof R) return (R) ((UserValue) v).userObj;
    throw new RuntimeException("not a rational: " + v);
  }
  static Value v(R r) { return new UserValue(r); }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static int in(Value v) { return ((IntValue) v).val; }
  static String s(Value v) { return ((StringValue) v).val.toString(); }
  static Value[] seq(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null) throw new RuntimeException("not a sequence: " + v);
    return t.elems;
  }

  static final ConcurrentHashMap<String, R> CACHE = new ConcurrentHashMap<>();
  static R parse(String s) {
    R c = CACHE.get(s);
    if (c == null) {
      int k = s.indexOf('/');
      c = k < 0 ? new R(new BigInteger(s), ONE, false)
                : new R(new BigInteger(s.substring(0, k)), new BigInteger(s.substring(k + 1)), true);
      if (CACHE.size() < 2000000) CACHE.put(s, c);
    }
    return c;
  }

  /** nearest integer to n/d (d>0), ties to even */
  static BigInteger nearest(BigInteger n, BigInteger d) {
    BigInteger[] q = n.divideAndRemainder(d);
    BigInteger f = q[0], rem = q[1];
    if (rem.signum() < 0) { f = f.subtract(ONE); rem = rem.add(d); }
    int c = rem.shiftLeft(1).compareTo(d);
    if (c > 0 || (c == 0 && f.testBit(0))) f = f.add(ONE);
    return f;
  }
  static R round(R x, int bits) {
    if (bits >= 0) return new R(nearest(x.n.shiftLeft(bits), x.d), ONE.shiftLeft(bits), true);
    return new R(nearest(x.n, x.d.shiftLeft(-bits)).shiftLeft(-bits), ONE, true);
  }
  static int exponent(R x) { // floor(log2 |x|), x # 0
    BigInteger a = x.n.abs();
    int e = a.bitLength() - x.d.bitLength();
    // 2^e <= a/d ?
    boolean ge = e >= 0 ? a.compareTo(x.d.shiftLeft(e)) >= 0 : a.shiftLeft(-e).compareTo(x.d) >= 0;
    return ge ? e : e - 1;
  }
  static R sig(R x, int bits) {
    if (x.n.signum() == 0) return x;
    return round(x, bits - 1 - exponent(x));
  }
  static R ieee(R x, int prec, int emin) {
    if (x.n.signum() == 0) return x;
    int e = Math.max(exponent(x), emin);
    return round(x, prec - 1 - e);
  }

  @TLAPlusOperator(identifier = "RI", module = "Rat", warn = false)
  public static Value RI(Value a) { return v(R.i(in(a))); }
  @TLAPlusOperator(identifier = "RQ", module = "Rat", warn = false)
  public static Value RQ(Value a, Value d) { return v(new R(BigInteger.valueOf(in(a)), BigInteger.valueOf(in(d)), true)); }
  @TLAPlusOperator(identifier = "RP", module = "Rat", warn = false)
  public static Value RP(Value a) { return v(parse(s(a))); }
  @TLAPlusOperator(identifier = "RStr", module = "Rat", warn = false)
  public static Value RStr(Value a) { return new StringValue(r(a).str()); }
  @TLAPlusOperator(identifier = "RIsNum", module = "Rat", warn = false)
  public static Value RIsNum(Value a) {
    if (!(a instanceof StringValue)) return b(false);
    String t = s(a);
    if (t.isEmpty()) return b(false);
    boolean slash = false;
    for (int i = 0; i < t.length(); i++) {
      char c = t.charAt(i);
      if (c >= '0' && c <= '9') continue;
      if (c == '-' && i == 0 && t.length() > 1) continue;
      if (c == '/' && !slash && i > 0 && i < t.length() - 1) { slash = true; continue; }
      return b(false);
    }
    return b(true);
  }
  @TLAPlusOperator(identifier = "IsRat", module = "Rat", warn = false)
  public static Value IsRat(Value a) { return b(a instanceof UserValue && ((UserValue) a).userObj instanceof R); }
  @TLAPlusOperator(identifier = "RAdd", module = "Rat", warn = false)
  public static Value RAdd(Value a, Value c) { return v(r(a).add(r(c))); }
  @TLAPlusOperator(identifier = "RSub", module = "Rat", warn = false)
  public static Value RSub(Value a, Value c) { return v(r(a).sub(r(c))); }
  @TLAPlusOperator(identifier = "RMul", module = "Rat", warn = false)
  public static Value RMul(Value a, Value c) { return v(r(a).mul(r(c))); }
  @TLAPlusOperator(identifier = "RDiv", module = "Rat", warn = false)
  public static Value RDiv(Value a, Value c) { return v(r(a).div(r(c))); }
  @TLAPlusOperator(identifier = "RNeg", module = "Rat", warn = false)
  public static Value RNeg(Value a) { return v(r(a).neg()); }
  @TLAPlusOperator(identifier = "RAbs", module = "Rat", warn = false)
  public static Value RAbs(Value a) { R x = r(a); return x.n.signum() < 0 ? v(x.neg()) : v(x); }
  @TLAPlusOperator(identifier = "RLe", module = "Rat", warn = false)
  public static Value RLe(Value a, Value c) { return b(r(a).cmp(r(c)) <= 0); }
  @TLAPlusOperator(identifier = "RLt", module = "Rat", warn = false)
  public static Value RLt(Value a, Value c) { return b(r(a).cmp(r(c)) < 0); }
  @TLAPlusOperator(identifier = "REq", module = "Rat", warn = false)
  public static Value REq(Value a, Value c) { return b(r(a).cmp(r(c)) == 0); }
  @TLAPlusOperator(identifier = "RSgn", module = "Rat", warn = false)
  public static Value RSgn(Value a) { return IntValue.gen(r(a).n.signum()); }
  @TLAPlusOperator(identifier = "RMin", module = "Rat", warn = false)
  public static Value RMin(Value a, Value c) { return r(a).cmp(r(c)) <= 0 ? a : c; }
  @TLAPlusOperator(identifier = "RMax", module = "Rat", warn = false)
  public static Value RMax(Value a, Value c) { return r(a).cmp(r(c)) <= 0 ? c : a; }
  @TLAPlusOperator(identifier = "RFloor", module = "Rat", warn = false)
  public static Value RFloor(Value a) {
    R x = r(a);
    BigInteger[] q = x.n.divideAndRemainder(x.d);
    BigInteger f = q[1].signum() < 0 ? q[0].subtract(ONE) : q[0];
    return IntValue.gen(f.intValueExact());
  }
  @TLAPlusOperator(identifier = "RPow", module = "Rat", warn = false)
  public static Value RPow(Value a, Value k) { R x = r(a); int n = in(k); return v(new R(x.n.pow(n), x.d.pow(n), false)); }
  @TLAPlusOperator(identifier = "RRnd", module = "Rat", warn = false)
  public static Value RRnd(Value a, Value k) { return v(round(r(a), in(k))); }
  @TLAPlusOperator(identifier = "RSig", module = "Rat", warn = false)
  public static Value RSig(Value a, Value k) { return v(sig(r(a), in(k))); }
  @TLAPlusOperator(identifier = "RSqrt", module = "Rat", warn = false)
  public static Value RSqrt(Value a, Value k) {
    R x = r(a); int p = in(k);
    if (x.n.signum() < 0) throw new RuntimeException("square root of a negative number");
    BigInteger q = x.n.shiftLeft(2 * p).divide(x.d).sqrt();
    return v(new R(q, ONE.shiftLeft(p), true));
  }
  @TLAPlusOperator(identifier = "RF64", module = "Rat", warn = false)
  public static Value RF64(Value a) { return v(ieee(r(a), 53, -1022)); }
  @TLAPlusOperator(identifier = "RF32", module = "Rat", warn = false)
  public static Value RF32(Value a) { return v(ieee(r(a), 24, -126)); }
  @TLAPlusOperator(identifier = "RSum", module = "Rat", warn = false)
  public static Value RSum(Value a) {
    R acc = R.i(0);
    for (Value e : seq(a)) acc = acc.add(r(e));
    return v(acc);
  }
  @TLAPlusOperator(identifier = "RDot", module = "Rat", warn = false)
  public static Value RDot(Value a, Value c) {
    Value[] x = seq(a), y = seq(c);
    if (x.length != y.length) throw new RuntimeException("RDot of sequences of different length");
    R acc = R.i(0);
    for (int i = 0; i < x.length; i++) acc = acc.add(r(x[i]).mul(r(y[i])));
    return v(acc);
  }

  /** The same value, with every function constructor inside it evaluated once and for all. */
  static Value eager(Value a) {
    if (a instanceof FcnLambdaValue) {
      Value t = a.toTuple();
      if (t == null) t = a.toFcnRcd();
      a = t;
    }
    if (a instanceof TupleValue) {
      Value[] e = ((TupleValue) a).elems, n = new Value[e.length];
      for (int i = 0; i < e.length; i++) n[i] = eager(e[i]);
      return new TupleValue(n);
    }
    if (a instanceof RecordValue) {
      RecordValue x = (RecordValue) a;
      Value[] n = new Value[x.values.length];
      for (int i = 0; i < n.length; i++) n[i] = eager(x.values[i]);
      return new RecordValue(x.names, n, x.isNormalized());
    }
    return a;
  }
  @TLAPlusOperator(identifier = "Eager", module = "Rat", warn = false)
  public static Value Eager(Value a) { return eager(a); }
}
