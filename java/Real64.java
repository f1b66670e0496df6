// TLC override for module Real64: IEEE doubles carried as TLA+ strings (or plain integers).
// Every operator of spec/Real64.tla is a pure function; this class only supplies its value.
import tlc2.value.IValue;
import tlc2.value.impl.*;

public class Real64 {
  private static double d(IValue v) {
    if (v instanceof IntValue) return ((IntValue) v).val;
    if (v instanceof StringValue) {
      String s = ((StringValue) v).val.toString();
      switch (s) {
        case "nan": case "NaN": return Double.NaN;
        case "inf": case "Infinity": return Double.POSITIVE_INFINITY;
        case "-inf": case "-Infinity": return Double.NEGATIVE_INFINITY;
        default: return Double.parseDouble(s);
      }
    }
    throw new RuntimeException("Real64: not a number: " + v);
  }
  private static Value r(double x) { return new StringValue(Double.toString(x)); }
  private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  private static Value[] seq(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null) throw new RuntimeException("Real64: not a sequence: " + v);
    return t.elems;
  }
  public static Value RAdd(Value a, Value c) { return r(d(a) + d(c)); }
  public static Value RSub(Value a, Value c) { return r(d(a) - d(c)); }
  public static Value RMul(Value a, Value c) { return r(d(a) * d(c)); }
  public static Value RDiv(Value a, Value c) { return r(d(a) / d(c)); }
  public static Value RPow(Value a, Value c) { return r(Math.pow(d(a), d(c))); }
  public static Value RNeg(Value a) { return r(-d(a)); }
  public static Value RAbs(Value a) { return r(Math.abs(d(a))); }
  public static Value RSqrt(Value a) { return r(Math.sqrt(d(a))); }
  public static Value RLn(Value a) { return r(Math.log(d(a))); }
  public static Value RExp(Value a) { return r(Math.exp(d(a))); }
  public static Value RCos(Value a) { return r(Math.cos(d(a))); }
  public static Value RSin(Value a) { return r(Math.sin(d(a))); }
  public static Value RAtan2(Value a, Value c) { return r(Math.atan2(d(a), d(c))); }
  public static Value RMax(Value a, Value c) { return r(Math.max(d(a), d(c))); }
  public static Value RMin(Value a, Value c) { return r(Math.min(d(a), d(c))); }
  public static Value RSign(Value a) { return r(Math.signum(d(a))); }
  public static Value RPi() { return r(Math.PI); }
  public static Value RNum(Value a) { return r(d(a)); }
  public static Value RLt(Value a, Value c) { return b(d(a) < d(c)); }
  public static Value RLe(Value a, Value c) { return b(d(a) <= d(c)); }
  public static Value RFinite(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
  public static Value RIsNaN(Value a) { return b(Double.isNaN(d(a))); }
  /** |a-b| <= atol + rtol*|b|, false for NaN; equal infinities are close. */
  private static boolean close(double x, double y, double rt, double at) {
    if (x == y) return true;
    return Math.abs(x - y) <= at + rt * Math.abs(y);
  }
  public static Value RClose(Value a, Value c, Value rtol, Value atol) { return b(close(d(a), d(c), d(rtol), d(atol))); }
  public static Value RCloseSeq(Value a, Value c, Value rtol, Value atol) {
    Value[] x = seq(a), y = seq(c);
    if (x.length != y.length) return b(false);
    double rt = d(rtol), at = d(atol);
    for (int i = 0; i < x.length; i++) if (!close(d(x[i]), d(y[i]), rt, at)) return b(false);
    return b(true);
  }
  public static Value RSum(Value s) { double t = 0; for (Value v : seq(s)) t += d(v); return r(t); }
  public static Value RMean(Value s) { Value[] e = seq(s); double t = 0; for (Value v : e) t += d(v); return r(t / e.length); }
  public static Value RDot(Value a, Value c) {
    Value[] x = seq(a), y = seq(c); double t = 0;
    for (int i = 0; i < x.length; i++) t += d(x[i]) * d(y[i]);
    return r(t);
  }
  public static Value RMaxSeq(Value s) { double t = Double.NEGATIVE_INFINITY; for (Value v : seq(s)) t = Math.max(t, d(v)); return r(t); }
  public static Value RMinSeq(Value s) { double t = Double.POSITIVE_INFINITY; for (Value v : seq(s)) t = Math.min(t, d(v)); return r(t); }
  public static Value RCeil(Value a) { return IntValue.gen((int) Math.ceil(d(a))); }
  public static Value RFloor(Value a) { return IntValue.gen((int) Math.floor(d(a))); }
  public static Value RTrapz(Value xs, Value ys) {
    Value[] x = seq(xs), y = seq(ys); double t = 0;
    for (int i = 1; i < x.length; i++) t += 0.5 * (d(x[i]) - d(x[i - 1])) * (d(y[i]) + d(y[i - 1]));
    return r(t);
  }
  // 16-point Gauss-Legendre on [-1,1]
  private static final double[] GX = {0.0950125098376374, 0.2816035507792589, 0.4580167776572274, 0.6178762444026438,
    0.7554044083550030, 0.8656312023878318, 0.9445750230732326, 0.9894009349916499};
  private static final double[] GW = {0.1894506104550685, 0.1826034150449236, 0.1691565193950025, 0.1495959888165767,
    0.1246289712555339, 0.0951585116824928, 0.0622535239386479, 0.0271524594117541};
  private interface F { double at(double x); }
  private static double gl(F f, double a, double c) {
    double m = 0.5 * (a + c), h = 0.5 * (c - a), t = 0;
    for (int i = 0; i < 8; i++) t += GW[i] * (f.at(m + h * GX[i]) + f.at(m - h * GX[i]));
    return t * h;
  }
  /** 2F1(1/3,17/6;4/3;-z) = Int_0^1 (1+z s^3)^(-17/6) ds, z >= 0. */
  private static double hyp(double z) {
    if (Double.isNaN(z)) return z;
    final double s0 = z > 1 ? Math.cbrt(1 / z) : 1;
    double t = 0; int n = 8;
    for (int i = 0; i < n; i++) t += gl(s -> Math.pow(1 + z * s * s * s, -17.0 / 6), s0 * i / n, s0 * (i + 1) / n);
    if (z > 1) {
      double T = Math.min(-Math.log(s0), 12); int m = (int) Math.ceil(T / 0.25);
      for (int i = 0; i < m; i++)
        t += gl(u -> { double s = s0 * Math.exp(u); return s * Math.pow(1 + z * s * s * s, -17.0 / 6); }, T * i / m, T * (i + 1) / m);
    }
    return t;
  }
  public static Value RHypVK(Value z) { return r(hyp(d(z))); }
  /** Int_0^inf k^3 (Lm2+k^2)^(-7/3)/(1+k^2 z^2) dk: integral of the two-dimensional spectrum shape. */
  public static Value RShape2D(Value L, Value z) {
    double l = d(L), zi = d(z); double t = 0;
    // k = exp(u), du panels
    for (double u = Math.log(1e-6 / l); u < Math.log(1e6 / Math.min(l, zi)); u += 0.25)
      t += gl(v -> { double k = Math.exp(v); return k * k * k * k * Math.pow(1 / (l * l) + k * k, -7.0 / 3) / (1 + k * k * zi * zi); }, u, u + 0.25);
    return r(t);
  }
}
