// TLC module override for specs/Dual.tla: the same operators, faster.
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class Dual {
  private static final int P = RealFn.PREC;

  private static final class D {
    final Rat.Q v; final Rat.Q[] d;
    D(Rat.Q v, Rat.Q[] d) { this.v = v; this.d = d; }
  }
  private static Value[] elems(Value x) {
    TupleValue t = x instanceof TupleValue ? (TupleValue) x : (TupleValue) x.toTuple();
    return (Value[]) t.elems;
  }
  private static D get(Value x) {
    Value[] e = elems(x);
    return new D(Rat.q(e[0]), Mat.vec(e[1]));
  }
  private static Value put(Rat.Q v, Rat.Q[] d) {
    return new TupleValue(new Value[] { Rat.val(v), Mat.ofVec(d) });
  }
  private static Rat.Q f(Rat.Q x) { return Rat.rnd(x, P); }

  private static Value lin(Rat.Q v, Rat.Q a, D x, Rat.Q b, D y) {
    int n = Math.max(x.d.length, y.d.length);
    Rat.Q[] r = new Rat.Q[n];
    for (int i = 0; i < n; i++) {
      Rat.Q p = x.d.length == 0 || x.d[i].n.signum() == 0 ? Rat.of(0) : f(Rat.mul(a, x.d[i]));
      Rat.Q q = y.d.length == 0 || y.d[i].n.signum() == 0 ? Rat.of(0) : f(Rat.mul(b, y.d[i]));
      r[i] = p.n.signum() == 0 ? q : q.n.signum() == 0 ? p : f(Rat.add(p, q));
    }
    return put(v, r);
  }
  private static final Rat.Q ONE = Rat.of(1);

  public static Value DAdd(Value a, Value b) { D x = get(a), y = get(b); return lin(f(Rat.add(x.v, y.v)), ONE, x, ONE, y); }
  public static Value DSub(Value a, Value b) { D x = get(a), y = get(b); return lin(f(Rat.sub(x.v, y.v)), ONE, x, Rat.of(-1), y); }
  public static Value DMul(Value a, Value b) { D x = get(a), y = get(b); return lin(f(Rat.mul(x.v, y.v)), y.v, x, x.v, y); }
  public static Value DDiv(Value a, Value b) {
    D x = get(a), y = get(b);
    return lin(f(Rat.div(x.v, y.v)), f(Rat.div(ONE, y.v)), x,
               Rat.neg(f(Rat.div(x.v, f(Rat.mul(y.v, y.v))))), y);
  }
  public static Value DLin1(Value v, Value a, Value x) {
    Rat.Q k = Rat.q(a);
    D y = get(x);
    Rat.Q[] r = new Rat.Q[y.d.length];
    for (int i = 0; i < r.length; i++) r[i] = f(Rat.mul(k, y.d[i]));
    return put(Rat.q(v), r);
  }
}
