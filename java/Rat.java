// TLC module override for specs/Rat.tla: the same operators on rationals
// <<n, d>> (d > 0, lowest terms), with integers of any size.  An integer
// that fits TLC's 32-bit range is an ordinary TLC integer; a larger one is
// the tuple <<sign, limb_0, limb_1, ...>> in base 2^30.
import java.math.BigInteger;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;

public class Rat {
  private static final BigInteger ONE = BigInteger.ONE;
  private static final int LB = 30;
  private static final BigInteger MASK = ONE.shiftLeft(LB).subtract(ONE);

  static final class Q {
    final BigInteger n, d;
    Q(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
  }

  // a rational with its integers at hand
  static final class RV extends TupleValue {
    final Q q;
    RV(Q q) { super(new Value[] { ofInt(q.n), ofInt(q.d) }); this.q = q; }
  }

  private static Value el(Value v, int i) {
    if (v instanceof TupleValue) return (Value) ((TupleValue) v).elems[i];
    Value t = (Value) v.toTuple();
    if (t == null) throw new RuntimeException("Rat: not a rational: " + v);
    return (Value) ((TupleValue) t).elems[i];
  }

  private static BigInteger toInt(Value v) {
    if (v instanceof IntValue) return BigInteger.valueOf(((IntValue) v).val);
    TupleValue t = (TupleValue) v.toTuple();
    BigInteger r = BigInteger.ZERO;
    for (int i = t.elems.length - 1; i >= 1; i--)
      r = r.shiftLeft(LB).or(BigInteger.valueOf(((IntValue) t.elems[i]).val));
    return ((IntValue) t.elems[0]).val < 0 ? r.negate() : r;
  }

  private static Value ofInt(BigInteger x) {
    if (x.bitLength() < 31) return IntValue.gen(x.intValue());
    BigInteger a = x.abs();
    int nl = (a.bitLength() + LB - 1) / LB;
    Value[] e = new Value[nl + 1];
    e[0] = IntValue.gen(x.signum());
    for (int i = 1; i <= nl; i++) {
      e[i] = IntValue.gen(a.and(MASK).intValue());
      a = a.shiftRight(LB);
    }
    return new TupleValue(e);
  }

  static Q q(Value v) {
    if (v instanceof RV) return ((RV) v).q;
    return new Q(toInt(el(v, 0)), toInt(el(v, 1)));
  }

  static Value mk(BigInteger n, BigInteger d) { return val(nrm(n, d)); }

  // ---- arithmetic on Q, used by the other overrides
  static Q nrm(BigInteger n, BigInteger d) {
    if (d.signum() == 0) throw new RuntimeException("Rat: division by zero");
    if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
    if (d.equals(ONE)) return new Q(n, d);
    if (n.signum() == 0) return new Q(n, ONE);
    int k = d.getLowestSetBit();
    if (k == d.bitLength() - 1) {           // a power of two
      int z = Math.min(k, n.getLowestSetBit());
      return z == 0 ? new Q(n, d) : new Q(n.shiftRight(z), d.shiftRight(z));
    }
    BigInteger g = n.gcd(d);
    if (!g.equals(ONE)) { n = n.divide(g); d = d.divide(g); }
    return new Q(n, d);
  }
  static Value val(Q x) { return new RV(x); }
  static Q add(Q x, Q y) {
    if (x.d.equals(y.d)) return nrm(x.n.add(y.n), x.d);
    return nrm(x.n.multiply(y.d).add(y.n.multiply(x.d)), x.d.multiply(y.d));
  }
  static Q neg(Q x) { return new Q(x.n.negate(), x.d); }
  static Q sub(Q x, Q y) { return add(x, neg(y)); }
  static Q mul(Q x, Q y) { return nrm(x.n.multiply(y.n), x.d.multiply(y.d)); }
  static Q div(Q x, Q y) { return nrm(x.n.multiply(y.d), x.d.multiply(y.n)); }
  static int cmp(Q x, Q y) { return x.n.multiply(y.d).compareTo(y.n.multiply(x.d)); }
  static Q of(long k) { return new Q(BigInteger.valueOf(k), ONE); }
  // small fractions stay exact, everything else gets a power of two below
  private static boolean isShort(Q x, int bits) {
    int l = x.d.bitLength();
    return x.n.bitLength() <= bits && (l <= 24 || (l <= 2 * bits && x.d.getLowestSetBit() == l - 1));
  }
  static Q rnd(Q x, int bits) {
    if (isShort(x, bits)) return x;
    int k = bits - (x.n.bitLength() - x.d.bitLength());
    BigInteger num = k >= 0 ? x.n.shiftLeft(k) : x.n;
    BigInteger den = k >= 0 ? x.d : x.d.shiftLeft(-k);
    BigInteger[] r = num.divideAndRemainder(den);
    BigInteger f = r[1].signum() < 0 ? r[0].subtract(ONE) : r[0];
    return k >= 0 ? nrm(f, ONE.shiftLeft(k)) : new Q(f.shiftLeft(-k), ONE);
  }

  public static Value RMk(Value n, Value d) { return mk(toInt(n), toInt(d)); }

  public static Value RAdd(Value a, Value b) {
    Q x = q(a), y = q(b);
    if (x.d.equals(y.d)) return mk(x.n.add(y.n), x.d);
    return mk(x.n.multiply(y.d).add(y.n.multiply(x.d)), x.d.multiply(y.d));
  }

  public static Value RSub(Value a, Value b) {
    Q x = q(a), y = q(b);
    if (x.d.equals(y.d)) return mk(x.n.subtract(y.n), x.d);
    return mk(x.n.multiply(y.d).subtract(y.n.multiply(x.d)), x.d.multiply(y.d));
  }

  public static Value RMul(Value a, Value b) {
    Q x = q(a), y = q(b);
    return mk(x.n.multiply(y.n), x.d.multiply(y.d));
  }

  public static Value RDiv(Value a, Value b) {
    Q x = q(a), y = q(b);
    return mk(x.n.multiply(y.d), x.d.multiply(y.n));
  }

  public static Value RNeg(Value a) {
    Q x = q(a);
    return val(neg(x));
  }

  private static int cmp(Value a, Value b) {
    Q x = q(a), y = q(b);
    return x.n.multiply(y.d).compareTo(y.n.multiply(x.d));
  }

  public static Value RLt(Value a, Value b) { return cmp(a, b) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value RLe(Value a, Value b) { return cmp(a, b) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value REq(Value a, Value b) { return cmp(a, b) == 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value RSign(Value a) { return IntValue.gen(q(a).n.signum()); }

  public static Value RPowN(Value a, Value k) {
    Q x = q(a);
    int e = ((IntValue) k).val;
    return mk(x.n.pow(e), x.d.pow(e));
  }

  // floor(a), as a rational
  public static Value RFloor(Value a) {
    Q x = q(a);
    BigInteger[] r = x.n.divideAndRemainder(x.d);
    BigInteger f = r[1].signum() < 0 ? r[0].subtract(ONE) : r[0];
    return val(new Q(f, ONE));
  }

  // floor(a * 2^k) / 2^k
  static Value round(Q x, int k) {
    BigInteger num = k >= 0 ? x.n.shiftLeft(k) : x.n;
    BigInteger den = k >= 0 ? x.d : x.d.shiftLeft(-k);
    BigInteger[] r = num.divideAndRemainder(den);
    BigInteger f = r[1].signum() < 0 ? r[0].subtract(ONE) : r[0];
    return k >= 0 ? mk(f, ONE.shiftLeft(k)) : mk(f.shiftLeft(-k), ONE);
  }

  public static Value RTrunc(Value a, Value k) { return round(q(a), ((IntValue) k).val); }

  // about b significant bits; a value that already is that short is kept
  public static Value RRound(Value a, Value b) {
    Q x = q(a);
    int bits = ((IntValue) b).val;
    if (isShort(x, bits)) return a;
    int e = x.n.bitLength() - x.d.bitLength();
    return round(x, bits - e);
  }

  public static Value RStr(Value a) {
    Q x = q(a);
    return new StringValue(x.n.toString() + "/" + x.d.toString());
  }
}
