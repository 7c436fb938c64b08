// TLC module override for specs/Force.tla: the identity, evaluated eagerly
// and to any depth (TLC's own function values are lazy).
import tlc2.value.impl.FcnLambdaValue;
import tlc2.value.impl.FcnRcdValue;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class Force {
  public static Value Force(Value v) {
    if (v instanceof FcnLambdaValue) {
      Value t = (Value) v.toTuple();
      v = t != null ? t : (Value) ((FcnLambdaValue) v).toFcnRcd();
    }
    if (v instanceof TupleValue && v.getClass() != TupleValue.class) return v;   // a Rat.RV
    if (v instanceof TupleValue) {
      Value[] e = ((TupleValue) v).elems;
      Value[] r = new Value[e.length];
      for (int i = 0; i < e.length; i++) r[i] = Force(e[i]);
      return new TupleValue(r);
    }
    if (v instanceof RecordValue) {
      RecordValue x = (RecordValue) v;
      Value[] r = new Value[x.values.length];
      for (int i = 0; i < r.length; i++) r[i] = Force(x.values[i]);
      return new RecordValue(x.names, r, x.isNormalized());
    }
    if (v instanceof FcnRcdValue) {
      Value t = (Value) v.toTuple();
      if (t != null) return Force(t);
      FcnRcdValue f = (FcnRcdValue) v;
      Value[] r = new Value[f.values.length];
      for (int i = 0; i < r.length; i++) r[i] = Force(f.values[i]);
      if (f.domain != null) return new FcnRcdValue(f.domain, r, f.isNormalized());
      return v;
    }
    return v;
  }
}
