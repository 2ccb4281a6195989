import tlc2.value.impl.*;

/** TLC module override for spec/Reals64.tla: IEEE-754 doubles as pairs <<hi32, lo32>>. */
public class Reals64 {
  static double d(Value v) {
    Value[] e = ((TupleValue) v.toTuple()).elems;
    return Double.longBitsToDouble(((long) ((IntValue) e[0]).val << 32) | (((IntValue) e[1]).val & 0xffffffffL));
  }
  static Value r(double x) {
    if (x != x) x = Double.NaN;
    long b = Double.doubleToRawLongBits(x);
    return new TupleValue(IntValue.gen((int) (b >>> 32)), IntValue.gen((int) b));
  }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static int i(Value v) { return ((IntValue) v).val; }
  public static Value R(Value s) { return r(Double.parseDouble(((StringValue) s).val.toString())); }
  public static Value OfInt(Value a) { return r(i(a)); }
  public static Value Add(Value a, Value b) { return r(d(a) + d(b)); }
  public static Value Sub(Value a, Value b) { return r(d(a) - d(b)); }
  public static Value Mul(Value a, Value b) { return r(d(a) * d(b)); }
  public static Value Div(Value a, Value b) { return r(d(a) / d(b)); }
  public static Value Opp(Value a) { return r(-d(a)); }
  public static Value Abs(Value a) { return r(Math.abs(d(a))); }
  public static Value Sqrt(Value a) { return r(Math.sqrt(d(a))); }
  public static Value Pow(Value a, Value b) { return r(Math.pow(d(a), d(b))); }
  public static Value PowI(Value a, Value n) {
    double x = d(a); int k = i(n); boolean neg = k < 0; if (neg) k = -k;
    double y = 1; for (int j = 0; j < k; j++) y *= x;
    return r(neg ? 1 / y : y);
  }
  public static Value Sin(Value a) { return r(Math.sin(d(a))); }
  public static Value Cos(Value a) { return r(Math.cos(d(a))); }
  public static Value Tan(Value a) { return r(Math.tan(d(a))); }
  public static Value Sinh(Value a) { return r(Math.sinh(d(a))); }
  public static Value Cosh(Value a) { return r(Math.cosh(d(a))); }
  public static Value Acos(Value a) { return r(Math.acos(d(a))); }
  public static Value Asin(Value a) { return r(Math.asin(d(a))); }
  public static Value Atan(Value a) { return r(Math.atan(d(a))); }
  public static Value Atan2(Value a, Value b) { return r(Math.atan2(d(a), d(b))); }
  public static Value Exp(Value a) { return r(Math.exp(d(a))); }
  public static Value Ln(Value a) { return r(Math.log(d(a))); }
  public static Value Floor(Value a) { return r(Math.floor(d(a))); }
  public static Value Max(Value a, Value b) { return r(Math.max(d(a), d(b))); }
  public static Value Min(Value a, Value b) { return r(Math.min(d(a), d(b))); }
  public static Value Lt(Value a, Value b) { return b(d(a) < d(b)); }
  public static Value Le(Value a, Value b) { return b(d(a) <= d(b)); }
  public static Value RealEq(Value a, Value b) { return b(d(a) == d(b)); }
  public static Value IsFinite(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
  public static Value ToInt(Value a) { return IntValue.gen((int) Math.round(d(a))); }
  public static Value Show(Value a) { return new StringValue(Double.toString(d(a))); }
  static Value[] els(Value s) { return ((TupleValue) s.toTuple()).elems; }
  /** Sum of a sequence of reals. */
  public static Value SumR(Value s) { double y = 0; for (Value v : els(s)) y += d(v); return r(y); }
  public static Value MaxR(Value s) { double y = 0; for (Value v : els(s)) y = Math.max(y, d(v)); return r(y); }
  /** Sum of a sequence of 3-vectors. */
  public static Value SumV(Value s) {
    double x = 0, y = 0, z = 0;
    for (Value v : els(s)) { Value[] e = els(v); x += d(e[0]); y += d(e[1]); z += d(e[2]); }
    return new TupleValue(new Value[]{r(x), r(y), r(z)});
  }
  /** |a-b| <= tol*scale; both NaN is NOT close; equal infinities are. */
  public static Value Close(Value a, Value bb, Value scale, Value tol) {
    double x = d(a), y = d(bb);
    if (x == y) return b(true);
    return b(Math.abs(x - y) <= d(tol) * d(scale));
  }
}
