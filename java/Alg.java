// Evaluation of module Alg (jets: Q[t]/t^3 (x) Q[e]/e^2) for TLC.  MCAlg.tla checks this
// class against the pure TLA+ definitions (AlgPure.tla).
import tlc2.value.impl.*;

public class Alg {
  /** coefficients of 1, t, t^2, e, e t, e t^2 */
  public static final class Jet extends UserObj {
    final Rat.Q[] c;
    Jet(Rat.Q[] c) { this.c = c; }
    public int compareTo(Value v) {
      if (v instanceof UserValue && ((UserValue) v).userObj instanceof Jet) {
        Jet o = (Jet) ((UserValue) v).userObj;
        for (int i = 0; i < 6; i++) { int k = c[i].cmp(o.c[i]); if (k != 0) return k; }
        return 0;
      }
      throw new RuntimeException("attempted to compare a jet with " + v.getKindString());
    }
    public boolean member(Value v) { throw new RuntimeException("jet used as a set"); }
    public boolean isFinite() { return true; }
    public StringBuffer toString(StringBuffer sb, int o, boolean s) {
      sb.append("<<");
      for (int i = 0; i < 6; i++) { if (i > 0) sb.append(", "); c[i].toString(sb, o, s); }
      return sb.append(">>");
    }
  }
  static Jet j(Value v) { return (Jet) ((UserValue) v).userObj; }
  static Value v(Rat.Q[] c) { return new UserValue(new Jet(c)); }
  static final Rat.Q Z = Rat.Q.Z;

  public static Value JMk(Value t) {
    TupleValue u = (TupleValue) t.toTuple();
    Rat.Q[] c = new Rat.Q[6];
    for (int i = 0; i < 6; i++) c[i] = Rat.q(u.elems[i]);
    return v(c);
  }
  public static Value JC(Value r) { return v(new Rat.Q[] {Rat.q(r), Z, Z, Z, Z, Z}); }
  public static Value JCoef(Value a, Value k) { return Rat.v(j(a).c[((IntValue) k).val - 1]); }
  public static Value JAdd(Value a, Value b) {
    Rat.Q[] x = j(a).c, y = j(b).c, r = new Rat.Q[6];
    for (int i = 0; i < 6; i++) r[i] = x[i].add(y[i]);
    return v(r);
  }
  public static Value JSub(Value a, Value b) {
    Rat.Q[] x = j(a).c, y = j(b).c, r = new Rat.Q[6];
    for (int i = 0; i < 6; i++) r[i] = x[i].add(y[i].neg());
    return v(r);
  }
  public static Value JNeg(Value a) {
    Rat.Q[] x = j(a).c, r = new Rat.Q[6];
    for (int i = 0; i < 6; i++) r[i] = x[i].neg();
    return v(r);
  }
  public static Value JMul(Value a, Value b) {
    Rat.Q[] x = j(a).c, y = j(b).c, r = new Rat.Q[6];
    for (int i = 0; i < 3; i++) {
      Rat.Q re = Z, ep = Z;
      for (int k = 0; k <= i; k++) {
        re = re.add(x[k].mul(y[i - k]));
        ep = ep.add(x[k].mul(y[3 + i - k])).add(x[3 + k].mul(y[i - k]));
      }
      r[i] = re; r[3 + i] = ep;
    }
    return v(r);
  }
  public static Value JScale(Value q, Value a) {
    Rat.Q s = Rat.q(q);
    Rat.Q[] x = j(a).c, r = new Rat.Q[6];
    for (int i = 0; i < 6; i++) r[i] = s.mul(x[i]);
    return v(r);
  }
  /** The e-part, as a jet in t alone. */
  public static Value JEps(Value a) { Rat.Q[] x = j(a).c; return v(new Rat.Q[] {x[3], x[4], x[5], Z, Z, Z}); }
  public static Value JSum(Value t) {
    TupleValue u = (TupleValue) t.toTuple();
    Rat.Q[] r = new Rat.Q[] {Z, Z, Z, Z, Z, Z};
    for (int k = 0; k < u.elems.length; k++) {
      Rat.Q[] x = j(u.elems[k]).c;
      for (int i = 0; i < 6; i++) r[i] = r[i].add(x[i]);
    }
    return v(r);
  }
  public static Value RSum(Value t) {
    TupleValue u = (TupleValue) t.toTuple();
    Rat.Q r = Z;
    for (int k = 0; k < u.elems.length; k++) r = r.add(Rat.q(u.elems[k]));
    return Rat.v(r);
  }
}
