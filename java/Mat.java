// TLC module override for specs/Mat.tla: the same operators, faster.
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class Mat {
  private static final int P = RealFn.PREC;

  private static Object[] elems(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    Value t = (Value) v.toTuple();
    if (t == null) throw new RuntimeException("Mat: not a sequence: " + v);
    return ((TupleValue) t).elems;
  }
  static Rat.Q[] vec(Value v) {
    Object[] e = elems(v);
    Rat.Q[] r = new Rat.Q[e.length];
    for (int i = 0; i < r.length; i++) r[i] = Rat.q((Value) e[i]);
    return r;
  }
  static Rat.Q[][] mat(Value v) {
    Object[] e = elems(v);
    Rat.Q[][] r = new Rat.Q[e.length][];
    for (int i = 0; i < r.length; i++) r[i] = vec((Value) e[i]);
    return r;
  }
  static Value ofVec(Rat.Q[] x) {
    Value[] r = new Value[x.length];
    for (int i = 0; i < r.length; i++) r[i] = Rat.val(x[i]);
    return new TupleValue(r);
  }
  static Value ofMat(Rat.Q[][] x) {
    Value[] r = new Value[x.length];
    for (int i = 0; i < r.length; i++) r[i] = ofVec(x[i]);
    return new TupleValue(r);
  }
  private static Rat.Q dot(Rat.Q[] a, Rat.Q[] b) {
    Rat.Q s = Rat.of(0);
    for (int i = 0; i < a.length; i++)
      if (a[i].n.signum() != 0 && b[i].n.signum() != 0) s = Rat.rnd(Rat.add(s, Rat.mul(a[i], b[i])), P);
    return s;
  }
  private static Rat.Q[] add(Rat.Q[] a, Rat.Q[] b, boolean sub) {
    Rat.Q[] r = new Rat.Q[a.length];
    for (int i = 0; i < r.length; i++) r[i] = Rat.rnd(sub ? Rat.sub(a[i], b[i]) : Rat.add(a[i], b[i]), P);
    return r;
  }
  private static Rat.Q[][] t(Rat.Q[][] A) {
    int m = A.length, n = m == 0 ? 0 : A[0].length;
    Rat.Q[][] r = new Rat.Q[n][m];
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) r[j][i] = A[i][j];
    return r;
  }

  public static Value VAdd(Value a, Value b) { return ofVec(add(vec(a), vec(b), false)); }
  public static Value VSub(Value a, Value b) { return ofVec(add(vec(a), vec(b), true)); }
  public static Value VDot(Value a, Value b) { return Rat.val(dot(vec(a), vec(b))); }
  public static Value VScale(Value c, Value a) {
    Rat.Q k = Rat.q(c);
    Rat.Q[] r = vec(a);
    for (int i = 0; i < r.length; i++) r[i] = Rat.rnd(Rat.mul(k, r[i]), P);
    return ofVec(r);
  }
  public static Value VSolve(Value A, Value b) {
    Rat.Q[] v = vec(b);
    Value[] col = new Value[v.length];
    for (int i = 0; i < v.length; i++) col[i] = new TupleValue(new Value[] { Rat.val(v[i]) });
    Rat.Q[][] X = mat(MSolve(A, new TupleValue(col)));
    for (int i = 0; i < v.length; i++) v[i] = X[i][0];
    return ofVec(v);
  }
  private static Value madd(Value A, Value B, boolean sub) {
    Rat.Q[][] a = mat(A), b = mat(B);
    for (int i = 0; i < a.length; i++) a[i] = add(a[i], b[i], sub);
    return ofMat(a);
  }
  public static Value MAdd(Value A, Value B) { return madd(A, B, false); }
  public static Value MSub(Value A, Value B) { return madd(A, B, true); }
  public static Value MScale(Value c, Value A) {
    Rat.Q k = Rat.q(c);
    Rat.Q[][] a = mat(A);
    for (Rat.Q[] r : a) for (int j = 0; j < r.length; j++) r[j] = Rat.rnd(Rat.mul(k, r[j]), P);
    return ofMat(a);
  }
  public static Value MT(Value A) { return ofMat(t(mat(A))); }
  public static Value MVec(Value A, Value x) {
    Rat.Q[][] a = mat(A);
    Rat.Q[] v = vec(x), r = new Rat.Q[a.length];
    for (int i = 0; i < r.length; i++) r[i] = dot(a[i], v);
    return ofVec(r);
  }
  public static Value MMul(Value A, Value B) {
    Rat.Q[][] a = mat(A), bt = t(mat(B)), r = new Rat.Q[a.length][bt.length];
    for (int i = 0; i < a.length; i++) for (int j = 0; j < bt.length; j++) r[i][j] = dot(a[i], bt[j]);
    return ofMat(r);
  }
  public static Value MSolve(Value A, Value B) {
    Rat.Q[][] a = mat(A), b = mat(B);
    int n = a.length, m = b[0].length;
    Rat.Q[][] M = new Rat.Q[n][n + m];
    for (int i = 0; i < n; i++) {
      System.arraycopy(a[i], 0, M[i], 0, n);
      System.arraycopy(b[i], 0, M[i], n, m);
    }
    for (int k = 0; k < n; k++) {
      int p = k;
      for (int q = k + 1; q < n; q++)
        if (Rat.cmp(new Rat.Q(M[q][k].n.abs(), M[q][k].d), new Rat.Q(M[p][k].n.abs(), M[p][k].d)) > 0) p = q;
      if (M[p][k].n.signum() == 0) throw new RuntimeException("Mat: singular matrix");
      Rat.Q[] tmp = M[k]; M[k] = M[p]; M[p] = tmp;
      Rat.Q inv = M[k][k];
      for (int j = k; j < n + m; j++) M[k][j] = Rat.rnd(Rat.div(M[k][j], inv), P);
      for (int i = 0; i < n; i++) {
        if (i == k || M[i][k].n.signum() == 0) continue;
        Rat.Q f = M[i][k];
        for (int j = k; j < n + m; j++) M[i][j] = Rat.rnd(Rat.sub(M[i][j], Rat.mul(f, M[k][j])), P);
      }
    }
    Rat.Q[][] r = new Rat.Q[n][m];
    for (int i = 0; i < n; i++) System.arraycopy(M[i], n, r[i], 0, m);
    return ofMat(r);
  }
}
