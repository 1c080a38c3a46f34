// Operator overrides of Real.tla: one IEEE-754 operation each.
import tlc2.value.impl.*;

public class Real {
    static double d(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        long hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val;
        return Double.longBitsToDouble((hi << 32) | (lo & 0xffffffffL));
    }
    static Value r(double x) {
        long b = Double.doubleToRawLongBits(x);
        return new TupleValue(new Value[] {IntValue.gen((int) (b >>> 32)), IntValue.gen((int) b)});
    }
    static double[] ds(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        double[] x = new double[t.elems.length];
        for (int i = 0; i < x.length; i++) x[i] = d(t.elems[i]);
        return x;
    }
    static Value rs(double[] x) {
        Value[] e = new Value[x.length];
        for (int i = 0; i < x.length; i++) e[i] = r(x[i]);
        return new TupleValue(e);
    }
    static double[][] dm(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        double[][] x = new double[t.elems.length][];
        for (int i = 0; i < x.length; i++) x[i] = ds(t.elems[i]);
        return x;
    }
    static Value rm(double[][] x) {
        Value[] e = new Value[x.length];
        for (int i = 0; i < x.length; i++) e[i] = rs(x[i]);
        return new TupleValue(e);
    }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value RLit(Value s) { return r(Double.parseDouble(((StringValue) s).val.toString())); }
    public static Value ROfInt(Value i) { return r(((IntValue) i).val); }
    public static Value RAdd(Value x, Value y) { return r(d(x) + d(y)); }
    public static Value RSub(Value x, Value y) { return r(d(x) - d(y)); }
    public static Value RMul(Value x, Value y) { return r(d(x) * d(y)); }
    public static Value RDiv(Value x, Value y) { return r(d(x) / d(y)); }
    public static Value RNeg(Value x) { return r(-d(x)); }
    public static Value RAbs(Value x) { return r(Math.abs(d(x))); }
    public static Value RSqrt(Value x) { return r(Math.sqrt(d(x))); }
    public static Value RSin(Value x) { return r(Math.sin(d(x))); }
    public static Value RCos(Value x) { return r(Math.cos(d(x))); }
    public static Value RAcos(Value x) { return r(Math.acos(d(x))); }
    public static Value RTan(Value x) { return r(Math.tan(d(x))); }
    public static Value RAtan2(Value y, Value x) { return r(Math.atan2(d(y), d(x))); }
    public static Value RMin(Value x, Value y) { return r(Math.min(d(x), d(y))); }
    public static Value RMax(Value x, Value y) { return r(Math.max(d(x), d(y))); }
    public static Value RLt(Value x, Value y) { return b(d(x) < d(y)); }
    public static Value RLe(Value x, Value y) { return b(d(x) <= d(y)); }
    public static Value RFinite(Value x) { double v = d(x); return b(!Double.isNaN(v) && !Double.isInfinite(v)); }
    public static Value RNaN(Value x) { return b(Double.isNaN(d(x))); }
    public static Value RStr(Value x) { return new StringValue(Double.toString(d(x))); }
    public static Value RSum(Value s) { double t = 0; for (double x : ds(s)) t += x; return r(t); }
    public static Value RDot(Value u, Value v) {
        double[] a = ds(u), c = ds(v);
        if (a.length != c.length) throw new RuntimeException("RDot: lengths " + a.length + ", " + c.length);
        double t = 0;
        for (int i = 0; i < a.length; i++) t += a[i] * c[i];
        return r(t);
    }
    public static Value RMaxAbs(Value s) {
        double m = 0;
        for (double x : ds(s)) { double a = Double.isNaN(x) ? Double.POSITIVE_INFINITY : Math.abs(x); if (a > m) m = a; }
        return r(m);
    }
    public static Value RAllFinite(Value s) {
        for (double x : ds(s)) if (Double.isNaN(x) || Double.isInfinite(x)) return BoolValue.ValFalse;
        return BoolValue.ValTrue;
    }
    public static Value Force(Value x) { return force(x); }
    static Value force(Value x) {
        if (x instanceof FcnLambdaValue || x instanceof FcnRcdValue) {
            Value t = (Value) x.toTuple();
            if (t == null) { Value f = (Value) ((x instanceof FcnLambdaValue) ? x.toFcnRcd() : x); return f; }
            x = t;
        }
        if (x instanceof TupleValue) {
            Value[] e = ((TupleValue) x).elems;
            for (int i = 0; i < e.length; i++) e[i] = force(e[i]);
        } else if (x instanceof RecordValue) {
            Value[] e = ((RecordValue) x).values;
            for (int i = 0; i < e.length; i++) e[i] = force(e[i]);
        }
        return x;
    }
}
