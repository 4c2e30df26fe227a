// Java module override for Rat.tla: exact rational arithmetic on canonical
// strings "n" or "n/d" (d > 1, gcd 1), plus "nan", "inf", "-inf".
// This class only implements arithmetic; every property is stated in TLA+.
import java.math.BigDecimal;
import java.math.BigInteger;
import tlc2.value.impl.*;

public class Rat {
  private static final BigInteger ONE = BigInteger.ONE, ZERO = BigInteger.ZERO, TWO = BigInteger.valueOf(2);

  private static final class Q {
    final BigInteger n, d; // d > 0; d == 0 encodes inf (n = +-1) and nan (n = 0)
    Q(BigInteger n, BigInteger d, boolean norm) {
      if (norm && d.signum() != 0) {
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        if (!d.equals(ONE)) {
          BigInteger g = n.gcd(d);
          if (!g.equals(ONE)) { n = n.divide(g); d = d.divide(g); }
        }
      }
      this.n = n; this.d = d;
    }
    boolean finite() { return d.signum() != 0; }
  }
  private static final Q NAN = new Q(ZERO, ZERO, false), PINF = new Q(ONE, ZERO, false), NINF = new Q(ONE.negate(), ZERO, false);

  private static Q parse(String s) {
    int k = s.indexOf('/');
    if (k >= 0) return new Q(new BigInteger(s.substring(0, k)), new BigInteger(s.substring(k + 1)), true);
    switch (s) {
      case "nan": return NAN;
      case "inf": return PINF;
      case "-inf": return NINF;
    }
    return new Q(new BigInteger(s), ONE, false);
  }
  private static Q of(Value v) {
    if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), ONE, false);
    return parse(((StringValue) v).val.toString());
  }
  private static Value str(Q q) {
    String s;
    if (q.d.signum() == 0) s = q.n.signum() == 0 ? "nan" : q.n.signum() > 0 ? "inf" : "-inf";
    else if (q.d.equals(ONE)) s = q.n.toString();
    else s = q.n.toString() + "/" + q.d.toString();
    return new StringValue(s);
  }
  private static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  private static void fin(Q a, String op) {
    if (!a.finite()) throw new RuntimeException("Rat." + op + ": argument is not finite");
  }
  private static Q add(Q a, Q b) {
    if (a.d.equals(b.d)) return new Q(a.n.add(b.n), a.d, true);
    return new Q(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d), true);
  }
  private static int cmp(Q a, Q b) { // neither is nan
    if (!a.finite() || !b.finite()) {
      int x = a.finite() ? 0 : a.n.signum(), y = b.finite() ? 0 : b.n.signum();
      return Integer.compare(x, y);
    }
    return a.n.multiply(b.d).compareTo(b.n.multiply(a.d));
  }
  private static boolean nan(Q a) { return a.d.signum() == 0 && a.n.signum() == 0; }

  public static Value RAdd(Value a, Value b) { Q x = of(a), y = of(b); if (!x.finite() || !y.finite()) return str(NAN); return str(add(x, y)); }
  public static Value RSub(Value a, Value b) { Q x = of(a), y = of(b); if (!x.finite() || !y.finite()) return str(NAN); return str(add(x, new Q(y.n.negate(), y.d, false))); }
  public static Value RMul(Value a, Value b) { Q x = of(a), y = of(b); if (!x.finite() || !y.finite()) return str(NAN); return str(new Q(x.n.multiply(y.n), x.d.multiply(y.d), true)); }
  public static Value RDiv(Value a, Value b) {
    Q x = of(a), y = of(b); if (!x.finite() || !y.finite() || y.n.signum() == 0) return str(NAN);
    return str(new Q(x.n.multiply(y.d), x.d.multiply(y.n), true));
  }
  public static Value RAbs(Value a) { Q x = of(a); return str(new Q(x.n.abs(), x.d, false)); }
  public static Value RLe(Value a, Value b) { Q x = of(a), y = of(b); return bool(!nan(x) && !nan(y) && cmp(x, y) <= 0); }
  public static Value RLt(Value a, Value b) { Q x = of(a), y = of(b); return bool(!nan(x) && !nan(y) && cmp(x, y) < 0); }
  public static Value RFin(Value a) { return bool(of(a).finite()); }
  public static Value R(Value a) { return str(of(a)); }
  public static Value RPow(Value a, Value k) {
    Q x = of(a); if (!x.finite()) return str(NAN); int e = ((IntValue) k).val;
    if (e >= 0) return str(new Q(x.n.pow(e), x.d.pow(e), true));
    return str(new Q(x.d.pow(-e), x.n.pow(-e), true));
  }
  public static Value RFloorInt(Value a) {
    Q x = of(a); fin(x, "RFloorInt");
    BigInteger[] qr = x.n.divideAndRemainder(x.d);
    BigInteger f = qr[1].signum() < 0 ? qr[0].subtract(ONE) : qr[0];
    return IntValue.gen(f.intValueExact());
  }
  /** sum of a sequence of rationals */
  public static Value RSumSeq(Value s) {
    TupleValue t = (TupleValue) s.toTuple();
    Q acc = new Q(ZERO, ONE, false);
    // group by denominators to avoid quadratic growth: plain left fold is fine for dyadics
    for (Value v : t.elems) { Q q = of(v); if (!q.finite()) return str(NAN); acc = add(acc, q); }
    return str(acc);
  }
  /** keep about `bits` fractional bits (floor), to bound the size of intermediate values */
  public static Value RTrunc(Value a, Value bits) {
    Q x = of(a); if (!x.finite()) return str(NAN); int b = ((IntValue) bits).val;
    if (x.d.bitLength() <= b) return str(x);
    BigInteger n = x.n.shiftLeft(b);
    BigInteger[] qr = n.divideAndRemainder(x.d);
    BigInteger f = qr[1].signum() < 0 ? qr[0].subtract(ONE) : qr[0];
    return str(new Q(f, ONE.shiftLeft(b), true));
  }
  /** log2 of a positive integer, as the exact rational of the nearest double */
  public static Value RLog2(Value a) {
    int n = ((IntValue) a).val;
    if (Integer.bitCount(n) == 1) return str(new Q(BigInteger.valueOf(Integer.numberOfTrailingZeros(n)), ONE, false));
    return str(ofBig(new BigDecimal(Math.log(n) / Math.log(2))));
  }
  public static Value RExp2(Value a) {
    Q x = of(a); fin(x, "RExp2");
    if (x.d.equals(ONE)) { int e = x.n.intValueExact();
      return e >= 0 ? str(new Q(ONE.shiftLeft(e), ONE, false)) : str(new Q(ONE, ONE.shiftLeft(-e), false)); }
    return str(ofBig(new BigDecimal(Math.pow(2, x.n.doubleValue() / x.d.doubleValue()))));
  }
  private static Q ofBig(BigDecimal d) {
    if (d.scale() >= 0) return new Q(d.unscaledValue(), BigInteger.TEN.pow(d.scale()), true);
    return new Q(d.unscaledValue().multiply(BigInteger.TEN.pow(-d.scale())), ONE, false);
  }
  /** the rational written by a decimal literal such as "-1.5e-3" */
  public static Value RDec(Value a) {
    String s = ((StringValue) a).val.toString().trim();
    String l = s.toLowerCase();
    if (l.equals("nan") || l.equals("inf") || l.equals("-inf")) return new StringValue(l);
    return str(ofBig(new BigDecimal(s)));
  }
  // ---- binary32 -------------------------------------------------------
  /** nearest binary32 (ties to even; overflow to inf) */
  public static Value RF32(Value a) { Q x = of(a); return str(x.finite() ? toF32(x) : x); }
  private static Q toF32(Q x) { return toIeee(x, 23, -149, 128); }
  /** nearest binary64 */
  public static Value RF64(Value a) { Q x = of(a); return str(x.finite() ? toIeee(x, 52, -1074, 1024) : x); }
  private static Q toIeee(Q x, int mant, int minexp, int maxexp) {
    if (x.n.signum() == 0) return x;
    boolean neg = x.n.signum() < 0; BigInteger n = x.n.abs(), d = x.d;
    int e = n.bitLength() - d.bitLength();            // 2^(e-1) < n/d < 2^(e+1)
    // want e with 2^e <= n/d < 2^(e+1)
    if (cmpPow(n, d, e) < 0) e--;
    int q = Math.max(e - mant, minexp);                   // exponent of the last place
    BigInteger num = q >= 0 ? n : n.shiftLeft(-q), den = q >= 0 ? d.shiftLeft(q) : d;
    BigInteger[] qr = num.divideAndRemainder(den);
    BigInteger m = qr[0]; int c = qr[1].shiftLeft(1).compareTo(den);
    if (c > 0 || (c == 0 && m.testBit(0))) m = m.add(ONE);
    Q r = q >= 0 ? new Q(m.shiftLeft(q), ONE, false) : new Q(m, ONE.shiftLeft(-q), true);
    if (cmp(r, new Q(ONE.shiftLeft(maxexp), ONE, false)) >= 0) return neg ? NINF : PINF;
    return neg ? new Q(r.n.negate(), r.d, false) : r;
  }
  private static int cmpPow(BigInteger n, BigInteger d, int e) { // compare n/d with 2^e
    return e >= 0 ? n.compareTo(d.shiftLeft(e)) : n.shiftLeft(-e).compareTo(d);
  }
}
