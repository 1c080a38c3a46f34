// Java versions of the hot operators of Vec.tla (same loops, same order); MCVec compares the two.
import tlc2.value.impl.*;

public class Vec {
    public static Value VAdd(Value u, Value v) {
        double[] a = Real.ds(u), b = Real.ds(v);
        double[] c = new double[a.length];
        for (int i = 0; i < a.length; i++) c[i] = a[i] + b[i];
        return Real.rs(c);
    }
    public static Value VSub(Value u, Value v) {
        double[] a = Real.ds(u), b = Real.ds(v);
        double[] c = new double[a.length];
        for (int i = 0; i < a.length; i++) c[i] = a[i] - b[i];
        return Real.rs(c);
    }
    public static Value VScale(Value s, Value u) {
        double k = Real.d(s);
        double[] a = Real.ds(u);
        for (int i = 0; i < a.length; i++) a[i] = k * a[i];
        return Real.rs(a);
    }
    static double[][] t(double[][] m) {
        if (m.length == 0) return m;
        double[][] r = new double[m[0].length][m.length];
        for (int i = 0; i < m.length; i++) for (int j = 0; j < m[0].length; j++) r[j][i] = m[i][j];
        return r;
    }
    static double dot(double[] a, double[] b) {
        if (a.length != b.length) throw new RuntimeException("dot: lengths " + a.length + ", " + b.length);
        double s = 0;
        for (int i = 0; i < a.length; i++) s += a[i] * b[i];
        return s;
    }
    public static Value MT(Value m) { return Real.rm(t(Real.dm(m))); }
    public static Value MVec(Value m, Value v) {
        double[][] a = Real.dm(m);
        double[] x = Real.ds(v), c = new double[a.length];
        for (int i = 0; i < a.length; i++) c[i] = dot(a[i], x);
        return Real.rs(c);
    }
    public static Value MMul(Value a, Value b) {
        double[][] x = Real.dm(a), y = t(Real.dm(b));
        double[][] c = new double[x.length][y.length];
        for (int i = 0; i < x.length; i++) for (int j = 0; j < y.length; j++) c[i][j] = dot(x[i], y[j]);
        return Real.rm(c);
    }
    public static Value MScale(Value s, Value m) {
        double k = Real.d(s);
        double[][] a = Real.dm(m);
        for (double[] r : a) for (int i = 0; i < r.length; i++) r[i] = k * r[i];
        return Real.rm(a);
    }
    public static Value MAdd(Value a, Value b) {
        double[][] x = Real.dm(a), y = Real.dm(b);
        for (int i = 0; i < x.length; i++) for (int j = 0; j < x[i].length; j++) x[i][j] += y[i][j];
        return Real.rm(x);
    }
    public static Value VClose(Value u, Value v, Value tol) {
        double[] a = Real.ds(u), b = Real.ds(v);
        double e = Real.d(tol);
        if (a.length != b.length) return BoolValue.ValFalse;
        for (int i = 0; i < a.length; i++)
            if (!(Double.doubleToRawLongBits(a[i]) == Double.doubleToRawLongBits(b[i])
                    || (Double.isNaN(a[i]) && Double.isNaN(b[i])) || Math.abs(a[i] - b[i]) <= e))
                return BoolValue.ValFalse;
        return BoolValue.ValTrue;
    }
    public static Value Ldl(Value h) {
        double[][] H = Real.dm(h);
        int n = H.length;
        double[][] L = new double[n][];
        double[] D = new double[n];
        for (int i = 0; i < n; i++) {
            double[] row = new double[i];
            for (int j = 0; j < i; j++) {
                double s = 0;
                for (int k = 0; k < j; k++) s += (row[k] * L[j][k]) * D[k];
                row[j] = (H[i][j] - s) / D[j];
            }
            double s = 0;
            for (int k = 0; k < i; k++) s += (row[k] * row[k]) * D[k];
            D[i] = H[i][i] - s;
            L[i] = row;
        }
        return new RecordValue(
            new util.UniqueString[] {util.UniqueString.uniqueStringOf("L"), util.UniqueString.uniqueStringOf("D")},
            new Value[] {Real.rm(L), Real.rs(D)}, false);
    }
    public static Value LdlSolve(Value f, Value b) {
        RecordValue r = (RecordValue) f.toRcd();
        double[][] L = Real.dm((Value) r.apply(new StringValue("L"), 0));
        double[] D = Real.ds((Value) r.apply(new StringValue("D"), 0));
        double[] y = Real.ds(b);
        int n = y.length;
        for (int i = 0; i < n; i++) {
            double s = 0;
            for (int k = 0; k < i; k++) s += L[i][k] * y[k];
            y[i] = y[i] - s;
        }
        for (int i = 0; i < n; i++) y[i] = y[i] / D[i];
        for (int i = n - 1; i >= 0; i--) {
            double s = 0;
            for (int k = i + 1; k < n; k++) s += L[k][i] * y[k];
            y[i] = y[i] - s;
        }
        return Real.rs(y);
    }
}
