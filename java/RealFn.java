// TLC module override for specs/RealFn.tla: the same functions, faster.
import java.math.BigInteger;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.Value;

public class RealFn {
  static final int PREC = 104;
  private static final int FIX = 160;               // fixed-point fraction bits
  private static final BigInteger ONE = BigInteger.ONE.shiftLeft(FIX);
  private static final BigInteger LN2 = twoAtanh(ONE.divide(BigInteger.valueOf(3)));

  static Rat.Q f(Rat.Q x) { return Rat.rnd(x, PREC); }

  public static Value FAdd(Value a, Value b) { return Rat.val(f(Rat.add(Rat.q(a), Rat.q(b)))); }
  public static Value FSub(Value a, Value b) { return Rat.val(f(Rat.sub(Rat.q(a), Rat.q(b)))); }
  public static Value FMul(Value a, Value b) { return Rat.val(f(Rat.mul(Rat.q(a), Rat.q(b)))); }
  public static Value FDiv(Value a, Value b) { return Rat.val(f(Rat.div(Rat.q(a), Rat.q(b)))); }

  private static BigInteger fx(Rat.Q x) { return x.n.shiftLeft(FIX).divide(x.d); }
  private static BigInteger mulx(BigInteger a, BigInteger b) { return a.multiply(b).shiftRight(FIX); }
  private static Rat.Q unfx(BigInteger a, int k) {  // a 2^-FIX 2^k
    int s = FIX - k;
    return f(s >= 0 ? Rat.nrm(a, BigInteger.ONE.shiftLeft(s)) : Rat.nrm(a.shiftLeft(-s), BigInteger.ONE));
  }

  private static BigInteger twoAtanh(BigInteger z) {
    BigInteger z2 = mulx(z, z), p = z, acc = BigInteger.ZERO;
    for (int k = 1; p.signum() != 0 && k < 400; k += 2) {
      BigInteger t = p.divide(BigInteger.valueOf(k));
      acc = acc.add(t);
      p = mulx(p, z2);
      if (p.bitLength() < 2) break;
    }
    return acc.shiftLeft(1);
  }

  static Rat.Q exp(Rat.Q x) {
    // enough extra bits that the reduced argument is accurate
    BigInteger X = x.n.shiftLeft(FIX).divide(x.d);
    BigInteger k = X.shiftLeft(1).add(LN2).divide(LN2.shiftLeft(1));
    if (X.shiftLeft(1).add(LN2).signum() < 0) k = k.subtract(BigInteger.ONE);
    BigInteger r = X.subtract(k.multiply(LN2));
    BigInteger t = ONE, acc = ONE;
    for (int i = 1; i < 200; i++) {
      t = mulx(t, r).divide(BigInteger.valueOf(i));
      if (t.signum() == 0 || t.equals(BigInteger.ONE.negate())) break;
      acc = acc.add(t);
    }
    return unfx(acc, k.intValueExact());
  }

  static Rat.Q ln(Rat.Q x) {
    if (x.n.signum() <= 0) throw new RuntimeException("RealFn: logarithm of a non-positive number");
    int k = x.n.bitLength() - x.d.bitLength();
    BigInteger m = k >= 0 ? x.n.shiftLeft(FIX).divide(x.d.shiftLeft(k)) : x.n.shiftLeft(FIX - k).divide(x.d);
    BigInteger z = m.subtract(ONE).shiftLeft(FIX).divide(m.add(ONE));
    return unfx(twoAtanh(z).add(LN2.multiply(BigInteger.valueOf(k))), 0);
  }

  static Rat.Q pow(Rat.Q a, Rat.Q b) {
    if (b.d.equals(BigInteger.ONE) && b.n.signum() >= 0 && b.n.bitLength() < 8) {
      int e = b.n.intValue();
      return f(new Rat.Q(a.n.pow(e), a.d.pow(e)));
    }
    if (a.n.signum() == 0) return Rat.of(0);
    return exp(f(Rat.mul(b, ln(a))));
  }

  public static Value Exp(Value x) { return Rat.val(exp(Rat.q(x))); }
  public static Value Ln(Value x) { return Rat.val(ln(Rat.q(x))); }
  public static Value Pow(Value a, Value b) { return Rat.val(pow(Rat.q(a), Rat.q(b))); }
  public static Value Sqrt(Value a) {
    Rat.Q x = Rat.q(a);
    return x.n.signum() == 0 ? Rat.val(x) : Rat.val(exp(Rat.div(ln(x), Rat.of(2))));
  }
  public static Value Tanh(Value a) {
    Rat.Q e = exp(Rat.mul(Rat.of(2), Rat.q(a)));
    return Rat.val(f(Rat.div(Rat.sub(e, Rat.of(1)), Rat.add(e, Rat.of(1)))));
  }
}
