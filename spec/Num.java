import tlc2.value.impl.*;
import java.util.concurrent.ConcurrentHashMap;

/** IEEE double implementation of the operators of Num.tla. */
public class Num {
  private static double d(Value v) {
    TupleValue t = (TupleValue) (v instanceof TupleValue ? v : v.toTuple());
    long hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val;
    return Double.longBitsToDouble((hi << 32) | (lo & 0xffffffffL));
  }
  private static Value v(double x) {
    long b = Double.doubleToRawLongBits(x);
    return new TupleValue(new Value[] { IntValue.gen((int) (b >> 32)), IntValue.gen((int) b) });
  }
  private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  private static final ConcurrentHashMap<String, Value> cache = new ConcurrentHashMap<>();
  public static Value R(Value s) {
    String t = ((StringValue) s).val.toString();
    return cache.computeIfAbsent(t, k -> {
      if (k.equals("pi")) return v(Math.PI);
      if (k.equals("inf")) return v(Double.POSITIVE_INFINITY);
      if (k.equals("nan")) return v(Double.NaN);
      return v(Double.parseDouble(k));
    });
  }
  public static Value RInt(Value n) { return v(((IntValue) n).val); }
  public static Value RStr(Value a) { return new StringValue(Double.toString(d(a))); }
  public static Value RAdd(Value a, Value c) { return v(d(a) + d(c)); }
  public static Value RSub(Value a, Value c) { return v(d(a) - d(c)); }
  public static Value RMul(Value a, Value c) { return v(d(a) * d(c)); }
  public static Value RDiv(Value a, Value c) { return v(d(a) / d(c)); }
  public static Value RNeg(Value a) { return v(-d(a)); }
  public static Value RAbs(Value a) { return v(Math.abs(d(a))); }
  public static Value RSqrt(Value a) { return v(Math.sqrt(d(a))); }
  public static Value RExp(Value a) { return v(Math.exp(d(a))); }
  public static Value RLog(Value a) { return v(Math.log(d(a))); }
  public static Value RSin(Value a) { return v(Math.sin(d(a))); }
  public static Value RCos(Value a) { return v(Math.cos(d(a))); }
  public static Value RAcos(Value a) { return v(Math.acos(Math.max(-1, Math.min(1, d(a))))); }
  public static Value RAtan2(Value a, Value c) { return v(Math.atan2(d(a), d(c))); }
  public static Value RPow(Value a, Value c) { return v(Math.pow(d(a), d(c))); }
  public static Value RMin(Value a, Value c) { return v(Math.min(d(a), d(c))); }
  public static Value RMax(Value a, Value c) { return v(Math.max(d(a), d(c))); }
  public static Value RLt(Value a, Value c) { return b(d(a) < d(c)); }
  public static Value RLe(Value a, Value c) { return b(d(a) <= d(c)); }
  public static Value RFinite(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
  public static Value RIsNaN(Value a) { return b(Double.isNaN(d(a))); }
  public static Value RFloor(Value a) { return IntValue.gen((int) Math.floor(d(a))); }
  public static Value RSum(Value s) {
    TupleValue t = (TupleValue) s.toTuple();
    double r = 0;
    for (int i = 0; i < t.elems.length; i++) r += d(t.elems[i]);
    return v(r);
  }
  public static Value SLt(Value s, Value t) {
    return b(((StringValue) s).val.toString().compareTo(((StringValue) t).val.toString()) < 0);
  }
  public static Value SCat(Value s, Value t) {
    return new StringValue(((StringValue) s).val.toString() + ((StringValue) t).val.toString());
  }
  /** The sequence itself, with every element computed. */
  public static Value Tab(Value s) {
    Value t = s.toTuple();
    if (t == null) throw new RuntimeException("Tab of something that is not a sequence");
    return t;
  }
  // which events of a trace had a clause that decides the property under check
  private static final java.util.TreeMap<Integer, Integer> marks = new java.util.TreeMap<>();
  public static synchronized Value Mark(Value i) { marks.merge(((IntValue) i).val, 1, Integer::sum); return BoolValue.ValTrue; }
  public static synchronized Value Report(Value i) {
    StringBuilder b = new StringBuilder("MARKS ");
    marks.forEach((k, n) -> b.append(k).append(':').append(n).append(' '));
    System.out.println(b);
    return BoolValue.ValTrue;
  }
  // values written for the replayer: a pair of integers is a real
  private static void json(Value v, StringBuilder b) {
    if (v instanceof IntValue) { b.append(((IntValue) v).val); return; }
    if (v instanceof BoolValue) { b.append(((BoolValue) v).val); return; }
    if (v instanceof StringValue) { b.append('"').append(((StringValue) v).val.toString().replace("\\", "\\\\").replace("\"", "\\\"")).append('"'); return; }
    if (v instanceof FcnLambdaValue) v = (Value) ((FcnLambdaValue) v).toFcnRcd();
    if (v instanceof RecordValue) {
      RecordValue r = (RecordValue) v;
      java.util.TreeMap<String, Value> m = new java.util.TreeMap<>();
      for (int i = 0; i < r.names.length; i++) m.put(r.names[i].toString(), r.values[i]);
      object(m, b); return;
    }
    if (v instanceof FcnRcdValue && v.toTuple() == null) {
      FcnRcdValue f = (FcnRcdValue) v;
      java.util.TreeMap<String, Value> m = new java.util.TreeMap<>();
      Value[] dom = f.getDomainAsValues();
      for (int i = 0; i < dom.length; i++) m.put(dom[i] instanceof StringValue ? ((StringValue) dom[i]).val.toString() : dom[i].toString(), f.values[i]);
      object(m, b); return;
    }
    Value[] e;
    if (v instanceof EnumerableValue) {
      SetEnumValue s = (SetEnumValue) v.toSetEnum(); s.normalize();
      e = s.elems.toArray();
    } else e = ((TupleValue) v.toTuple()).elems;
    if (v.toTuple() != null && e.length == 2 && e[0] instanceof IntValue && e[1] instanceof IntValue) { b.append(d(v)); return; }
    b.append('[');
    for (int i = 0; i < e.length; i++) { if (i > 0) b.append(','); json(e[i], b); }
    b.append(']');
  }
  private static void object(java.util.TreeMap<String, Value> m, StringBuilder b) {
    b.append('{');
    boolean first = true;
    for (java.util.Map.Entry<String, Value> x : m.entrySet()) {
      if (!first) b.append(',');
      first = false;
      b.append('"').append(x.getKey()).append("\":"); json(x.getValue(), b);
    }
    b.append('}');
  }
  private static java.io.PrintWriter out;
  public static Value Emit(Value t, Value v) {
    StringBuilder b = new StringBuilder(((StringValue) t).val.toString()).append('|');
    json(v, b);
    synchronized (Num.class) {
      try {
        if (out == null) {
          out = new java.io.PrintWriter(new java.io.BufferedWriter(new java.io.FileWriter("emitted")));
          Runtime.getRuntime().addShutdownHook(new Thread(() -> { synchronized (Num.class) { out.close(); } }));
        }
      } catch (java.io.IOException e) { throw new RuntimeException(e); }
      out.println(b);
    }
    return BoolValue.ValTrue;
  }
}
