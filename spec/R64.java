import tlc2.value.impl.*;

/** TLC module override for R64.tla: IEEE double arithmetic on <<hi, lo>>. */
public class R64 {
  static double d(Value v) {
    TupleValue t = (v instanceof TupleValue) ? (TupleValue) v : (TupleValue) v.toTuple();
    long hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val;
    return Double.longBitsToDouble((hi << 32) | (lo & 0xffffffffL));
  }
  static Value r(double x) {
    if (x == 0.0) x = 0.0; // one zero
    long b = Double.doubleToLongBits(x);
    return new TupleValue(IntValue.gen((int) (b >> 32)), IntValue.gen((int) b));
  }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value RInt(Value i) { return r(((IntValue) i).val); }
  public static Value RRat(Value p, Value q) { return r(((double) ((IntValue) p).val) / ((IntValue) q).val); }
  public static Value RAdd(Value a, Value c) { return r(d(a) + d(c)); }
  public static Value RSub(Value a, Value c) { return r(d(a) - d(c)); }
  public static Value RMul(Value a, Value c) { return r(d(a) * d(c)); }
  public static Value RDiv(Value a, Value c) { return r(d(a) / d(c)); }
  public static Value RNeg(Value a) { return r(-d(a)); }
  public static Value RLt(Value a, Value c) { return b(d(a) < d(c)); }
  public static Value RLe(Value a, Value c) { return b(d(a) <= d(c)); }
  public static Value RFinite(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
  public static Value RAbs(Value a) { return r(Math.abs(d(a))); }
  public static Value RSqrt(Value a) { return r(Math.sqrt(d(a))); }
  public static Value RCbrt(Value a) { return r(Math.cbrt(d(a))); }
  public static Value RExp(Value a) { return r(Math.exp(d(a))); }
  public static Value RLog(Value a) { return r(Math.log(d(a))); }
  public static Value RSin(Value a) { return r(Math.sin(d(a))); }
  public static Value RCos(Value a) { return r(Math.cos(d(a))); }
  public static Value RTan(Value a) { return r(Math.tan(d(a))); }
  public static Value RAsin(Value a) { return r(Math.asin(d(a))); }
  public static Value RAtan(Value a) { return r(Math.atan(d(a))); }
  public static Value RAtan2(Value a, Value c) { return r(Math.atan2(d(a), d(c))); }
  public static Value RPow(Value a, Value c) { return r(Math.pow(d(a), d(c))); }
  public static Value RFloor(Value a) { return r(Math.floor(d(a))); }
  public static Value RToInt(Value a) { return IntValue.gen((int) d(a)); }
  public static Value RClose(Value a, Value c, Value s, Value e) {
    double x = d(a), y = d(c);
    double tol = Math.pow(10.0, -((IntValue) e).val) * Math.max(1.0, Math.abs(d(s)));
    return b(Math.abs(x - y) <= tol); // false on NaN
  }
}
