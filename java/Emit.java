// TLC module override for specs/Emit.tla: appends one JSON object per line to
// the file named by the system property verif.out.  Always TRUE.
import java.io.BufferedWriter;
import java.io.FileWriter;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.FcnLambdaValue;
import tlc2.value.impl.FcnRcdValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.SetEnumValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;
import util.UniqueString;

public class Emit {
  private static BufferedWriter out;

  private static void str(StringBuilder b, String s) {
    b.append('"');
    for (char ch : s.toCharArray()) {
      if (ch == '"' || ch == '\\') b.append('\\');
      b.append(ch);
    }
    b.append('"');
  }

  private static void seq(StringBuilder b, Object[] es) {
    b.append('[');
    for (int i = 0; i < es.length; i++) {
      if (i > 0) b.append(',');
      json(b, (Value) es[i]);
    }
    b.append(']');
  }

  private static void json(StringBuilder b, Value v) {
    if (v instanceof IntValue) b.append(((IntValue) v).val);
    else if (v instanceof BoolValue) b.append(((BoolValue) v).val);
    else if (v instanceof StringValue) str(b, ((StringValue) v).val.toString());
    else if (v instanceof TupleValue) seq(b, ((TupleValue) v).elems);
    else if (v instanceof SetEnumValue) {
      SetEnumValue s = (SetEnumValue) v;
      s.normalize();
      b.append('[');
      for (int i = 0; i < s.elems.size(); i++) {
        if (i > 0) b.append(',');
        json(b, s.elems.elementAt(i));
      }
      b.append(']');
    } else if (v instanceof RecordValue) {
      RecordValue r = (RecordValue) v;
      UniqueString[] n = r.names;
      b.append('{');
      for (int i = 0; i < n.length; i++) {
        if (i > 0) b.append(',');
        str(b, n[i].toString());
        b.append(':');
        json(b, r.values[i]);
      }
      b.append('}');
    } else {
      Value t = (Value) v.toTuple();
      if (t != null) { json(b, t); return; }
      if (v instanceof FcnLambdaValue) v = (Value) ((FcnLambdaValue) v).toFcnRcd();
      if (v instanceof FcnRcdValue) {
        Value r = (Value) ((FcnRcdValue) v).toRcd();
        if (r != null) { json(b, r); return; }
        FcnRcdValue f = (FcnRcdValue) v;
        b.append('{');
        for (int i = 0; i < f.values.length; i++) {
          if (i > 0) b.append(',');
          str(b, f.domain[i].toString());
          b.append(':');
          json(b, f.values[i]);
        }
        b.append('}');
        return;
      }
      throw new RuntimeException("Emit: cannot export " + v.getClass());
    }
  }

  public static Value Emit(Value v) throws Exception {
    StringBuilder b = new StringBuilder();
    json(b, v);
    b.append('\n');
    synchronized (Emit.class) {
      if (out == null) out = new BufferedWriter(new FileWriter(System.getProperty("verif.out"), true));
      out.write(b.toString());
      out.flush();
    }
    return BoolValue.ValTrue;
  }
}
