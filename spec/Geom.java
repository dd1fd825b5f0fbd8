import tlc2.value.impl.*;

/** Faster evaluation of some operators of Geom.tla: the same operations in the same order as the
 *  definitions there (the model GeomModel compares the two, bit by bit). */
public class Geom {
  private static double d(Value v) {
    TupleValue t = (TupleValue) (v instanceof TupleValue ? v : v.toTuple());
    long hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val;
    return Double.longBitsToDouble((hi << 32) | (lo & 0xffffffffL));
  }
  private static Value v(double x) {
    long b = Double.doubleToRawLongBits(x);
    return new TupleValue(new Value[] { IntValue.gen((int) (b >> 32)), IntValue.gen((int) b) });
  }
  private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  private static double[] ds(Value v, int n) {
    TupleValue t = (TupleValue) (v instanceof TupleValue ? v : v.toTuple());
    double[] r = new double[n];
    for (int i = 0; i < n; i++) r[i] = d(t.elems[i]);
    return r;
  }
  private static Value vs(double... x) {
    Value[] e = new Value[x.length];
    for (int i = 0; i < x.length; i++) e[i] = v(x[i]);
    return new TupleValue(e);
  }
  private static double[] add(double[] a, double[] c) { return new double[] { a[0] + c[0], a[1] + c[1], a[2] + c[2] }; }
  private static double[] scale(double s, double[] a) { return new double[] { s * a[0], s * a[1], s * a[2] }; }
  private static double dot(double[] a, double[] c) { return a[0] * c[0] + a[1] * c[1] + a[2] * c[2]; }
  private static double[] cross(double[] a, double[] c) {
    return new double[] { a[1] * c[2] - a[2] * c[1], a[2] * c[0] - a[0] * c[2], a[0] * c[1] - a[1] * c[0] };
  }
  private static double norm(double[] a) { return Math.sqrt(dot(a, a)); }
  public static Value VAdd(Value a, Value c) { return vs(add(ds(a, 3), ds(c, 3))); }
  public static Value VSub(Value a, Value c) { double[] x = ds(a, 3), y = ds(c, 3); return vs(x[0] - y[0], x[1] - y[1], x[2] - y[2]); }
  public static Value VScale(Value s, Value a) { return vs(scale(d(s), ds(a, 3))); }
  public static Value VNeg(Value a) { double[] x = ds(a, 3); return vs(-x[0], -x[1], -x[2]); }
  public static Value Dot(Value a, Value c) { return v(dot(ds(a, 3), ds(c, 3))); }
  public static Value Cross(Value a, Value c) { return vs(cross(ds(a, 3), ds(c, 3))); }
  public static Value Norm(Value a) { return v(norm(ds(a, 3))); }
  public static Value Unit(Value a) {
    double[] x = ds(a, 3);
    double n = norm(x);
    return n > 0 ? vs(scale(1 / n, x)) : a;
  }
  public static Value QMul(Value p, Value q) {
    double[] a = ds(p, 4), c = ds(q, 4);
    return vs(a[0] * c[0] - a[1] * c[1] - (a[2] * c[2] + a[3] * c[3]),
              a[0] * c[1] + a[1] * c[0] + (a[2] * c[3] - a[3] * c[2]),
              a[0] * c[2] - a[1] * c[3] + (a[2] * c[0] + a[3] * c[1]),
              a[0] * c[3] + a[1] * c[2] + (a[3] * c[0] - a[2] * c[1]));
  }
  public static Value QConj(Value q) { double[] a = ds(q, 4); return vs(a[0], -a[1], -a[2], -a[3]); }
  public static Value QRot(Value q, Value w) {
    double[] a = ds(q, 4), x = ds(w, 3), u = { a[1], a[2], a[3] }, t = scale(2, cross(u, x));
    return vs(add(x, add(scale(a[0], t), cross(u, t))));
  }
  public static Value Near(Value a, Value c, Value t) {
    double x = d(a), y = d(c);
    return b(a.equals(c) || Math.abs(x - y) <= d(t) * (1 + Math.max(Math.abs(x), Math.abs(y))));
  }
  public static Value VNear(Value a, Value c, Value t) {
    double[] x = ds(a, 3), y = ds(c, 3);
    return b(a.equals(c) || norm(new double[] { x[0] - y[0], x[1] - y[1], x[2] - y[2] }) <= d(t) * (1 + Math.max(norm(x), norm(y))));
  }
}
