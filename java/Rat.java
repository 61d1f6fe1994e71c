// Evaluation of module Rat for TLC: the operators of Rat.tla on java.math.BigInteger
// fractions, because TLC's own integers are 32-bit.  MCRat.tla checks this class against
// the pure TLA+ definitions (RatPure.tla).
import java.math.BigDecimal;
import java.math.BigInteger;
import tlc2.value.impl.*;

public class Rat {
  static final BigInteger ONE = BigInteger.ONE, ZERO = BigInteger.ZERO;

  /** A normalised rational number as an opaque TLC value. */
  public static final class Q extends UserObj {
    final BigInteger n, d;
    Q(BigInteger a, BigInteger b) { n = a; d = b; }
    static final Q Z = new Q(ZERO, ONE), U = new Q(ONE, ONE);
    static Q of(BigInteger n, BigInteger d) {
      if (n.signum() == 0) return Z;
      if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
      BigInteger g = n.gcd(d);
      if (g.bitLength() > 1) { n = n.divide(g); d = d.divide(g); }
      return new Q(n, d);
    }
    boolean z() { return n.signum() == 0; }
    Q add(Q o) {
      if (z()) return o;
      if (o.z()) return this;
      if (d.equals(o.d)) return of(n.add(o.n), d);
      return of(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d));
    }
    Q neg() { return z() ? this : new Q(n.negate(), d); }
    Q mul(Q o) {
      if (z() || o.z()) return Z;
      return of(n.multiply(o.n), d.multiply(o.d));
    }
    int cmp(Q o) { return n.multiply(o.d).compareTo(o.n.multiply(d)); }
    public int compareTo(Value v) {
      if (v instanceof UserValue && ((UserValue) v).userObj instanceof Q) return cmp((Q) ((UserValue) v).userObj);
      throw new RuntimeException("attempted to compare a rational with " + v.getKindString());
    }
    public boolean member(Value v) { throw new RuntimeException("rational used as a set"); }
    public boolean isFinite() { return true; }
    public StringBuffer toString(StringBuffer sb, int o, boolean s) { return sb.append(n).append('/').append(d); }
  }

  static Q q(Value v) {
    if (v instanceof UserValue && ((UserValue) v).userObj instanceof Q) return (Q) ((UserValue) v).userObj;
    throw new RuntimeException("not a rational: " + v);
  }
  static Value v(Q x) { return new UserValue(x); }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static BigInteger bi(Value v) { return BigInteger.valueOf(((IntValue) v).val); }

  public static Value RI(Value i) { return v(Q.of(bi(i), ONE)); }
  public static Value RFrac(Value n, Value d) { return v(Q.of(bi(n), bi(d))); }
  public static Value RAdd(Value a, Value b) { return v(q(a).add(q(b))); }
  public static Value RSub(Value a, Value b) { return v(q(a).add(q(b).neg())); }
  public static Value RNeg(Value a) { return v(q(a).neg()); }
  public static Value RMul(Value a, Value b) { return v(q(a).mul(q(b))); }
  public static Value RDiv(Value a, Value b) {
    Q y = q(b);
    if (y.z()) throw new RuntimeException("division by zero");
    Q x = q(a);
    return v(Q.of(x.n.multiply(y.d), x.d.multiply(y.n)));
  }
  public static Value RAbs(Value a) { Q x = q(a); return v(x.n.signum() < 0 ? x.neg() : x); }
  public static Value RMax(Value a, Value b) { return q(a).cmp(q(b)) >= 0 ? a : b; }
  public static Value RLe(Value a, Value b) { return b(q(a).cmp(q(b)) <= 0); }
  public static Value RLt(Value a, Value b) { return b(q(a).cmp(q(b)) < 0); }
  public static Value REq(Value a, Value b) { return b(q(a).cmp(q(b)) == 0); }
  public static Value RSgn(Value a) { return IntValue.gen(q(a).n.signum()); }
  /** The square root, to 30 digits. */
  public static Value RSqrt(Value a) {
    Q x = q(a);
    BigDecimal d = new BigDecimal(x.n).divide(new BigDecimal(x.d), new java.math.MathContext(40)).sqrt(new java.math.MathContext(30));
    return v(d.scale() > 0 ? Q.of(d.unscaledValue(), BigInteger.TEN.pow(d.scale())) : Q.of(d.toBigInteger(), ONE));
  }
  /** The double nearest to a rational, as text. */
  public static Value RStr(Value a) { return new StringValue(Double.toString(dbl(q(a)))); }
  static double dbl(Q x) { return new BigDecimal(x.n).divide(new BigDecimal(x.d), new java.math.MathContext(20)).doubleValue(); }
  /** The exact numerator and denominator as text. */
  public static Value RFracStr(Value a) { Q x = q(a); return new StringValue(x.d.equals(ONE) ? x.n.toString() : x.n + "/" + x.d); }

  static String s(Value v) { return ((StringValue) v).val.toString(); }
  static final java.util.concurrent.ConcurrentHashMap<String, Q> memo = new java.util.concurrent.ConcurrentHashMap<>();
  static Q parse(String t) {
    Q r = memo.get(t);
    if (r != null) return r;
    int at = t.indexOf('@');
    if (at >= 0) return parse(t.substring(0, at));
    int k = t.indexOf('/');
    if (k >= 0) r = Q.of(new BigInteger(t.substring(0, k)), new BigInteger(t.substring(k + 1)));
    else {
      BigDecimal d = new BigDecimal(t);
      r = d.scale() > 0 ? Q.of(d.unscaledValue(), BigInteger.TEN.pow(d.scale()))
                        : Q.of(d.unscaledValue().multiply(BigInteger.TEN.pow(-d.scale())), ONE);
    }
    if (memo.size() < 200000) memo.put(t, r);
    return r;
  }
  /** The rational a decimal or fraction text denotes. */
  public static Value RD(Value str) { return v(parse(s(str))); }
  /** Does the text denote a (finite) number? */
  public static Value RIsNum(Value str) {
    if (!(str instanceof StringValue)) return b(false);
    try { parse(s(str)); return b(true); } catch (NumberFormatException e) { return b(false); }
  }
  /** 2*atan(t), to double precision, as a rational; "inf" is pi; "t@k" has k more turns. */
  public static Value RAng(Value t) {
    String x = s(t);
    int at = x.indexOf('@');
    double turns = at >= 0 ? 2 * Math.PI * Integer.parseInt(x.substring(at + 1)) : 0;
    double a = x.equals("inf") ? Math.PI : 2 * Math.atan(dbl(parse(x))) + turns;
    BigDecimal d = new BigDecimal(a);
    return v(d.scale() > 0 ? Q.of(d.unscaledValue(), BigInteger.TEN.pow(d.scale())) : Q.of(d.toBigInteger(), ONE));
  }
}
