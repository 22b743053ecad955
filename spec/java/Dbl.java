import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** TLC's implementation of the primitive operators of Dbl.tla. */
public class Dbl {
    static double v(Value x) {
        Value[] e = ((TupleValue) (x instanceof TupleValue ? x : x.toTuple())).elems;
        return Double.longBitsToDouble(((long) ((IntValue) e[0]).val << 32) | (((IntValue) e[1]).val & 0xffffffffL));
    }

    static Value r(double d) {
        long b = Double.doubleToLongBits(d);
        return new TupleValue(IntValue.gen((int) (b >> 32)), IntValue.gen((int) b));
    }

    static int i(double d) {
        if (!(Math.abs(d) < 2147483647.0)) throw new RuntimeException("not a 32-bit integer: " + d);
        return (int) d;
    }

    static int n(Value x) { return ((IntValue) x).val; }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static Value[] s(Value x) { return ((TupleValue) x.toTuple()).elems; }

    public static Value Eager(Value a) {
        Value t = a.toTuple();
        if (t == null) t = a.toFcnRcd();
        t.deepNormalize();
        return t;
    }

    public static Value DInt(Value a) { return r(n(a)); }
    public static Value DRat(Value a, Value c) { return r((double) n(a) / n(c)); }
    public static Value DAdd(Value a, Value c) { return r(v(a) + v(c)); }
    public static Value DSub(Value a, Value c) { return r(v(a) - v(c)); }
    public static Value DMul(Value a, Value c) { return r(v(a) * v(c)); }
    public static Value DDiv(Value a, Value c) { return r(v(a) / v(c)); }
    public static Value DNeg(Value a) { return r(-v(a)); }
    public static Value DAbs(Value a) { return r(Math.abs(v(a))); }
    public static Value DMin(Value a, Value c) { return r(Math.min(v(a), v(c))); }
    public static Value DMax(Value a, Value c) { return r(Math.max(v(a), v(c))); }
    public static Value DSqrt(Value a) { return r(Math.sqrt(v(a))); }
    public static Value DSin(Value a) { return r(Math.sin(v(a))); }
    public static Value DCos(Value a) { return r(Math.cos(v(a))); }
    public static Value DAtan2(Value a, Value c) { return r(Math.atan2(v(a), v(c))); }
    public static Value DExp(Value a) { return r(Math.exp(v(a))); }
    public static Value DLn(Value a) { return r(Math.log(v(a))); }
    public static Value DPow(Value a, Value c) { return r(Math.pow(v(a), v(c))); }
    public static Value DPi() { return r(Math.PI); }
    public static Value DF32(Value a) { return r((float) v(a)); }
    public static Value DFloor(Value a) { return IntValue.gen(i(Math.floor(v(a)))); }
    public static Value DRound(Value a) { return IntValue.gen(i(Math.rint(v(a)))); }
    public static Value DEq(Value a, Value c) { return b(v(a) == v(c)); }
    public static Value DLt(Value a, Value c) { return b(v(a) < v(c)); }
    public static Value DLeq(Value a, Value c) { return b(v(a) <= v(c)); }
    public static Value DIsFinite(Value a) { double x = v(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
    public static Value DIsNan(Value a) { return b(Double.isNaN(v(a))); }

    public static Value DSum(Value a) {
        double t = 0;
        for (Value x : s(a)) t += v(x);
        return r(t);
    }

    public static Value DDot(Value a, Value c) {
        Value[] x = s(a), y = s(c);
        if (x.length != y.length) throw new RuntimeException("DDot: lengths differ");
        double t = 0;
        for (int k = 0; k < x.length; k++) t += v(x[k]) * v(y[k]);
        return r(t);
    }

    public static Value DMaxAbs(Value a) {
        double t = 0;
        for (Value x : s(a)) t = Math.max(t, Math.abs(v(x)));
        return r(t);
    }

    public static Value DComb(Value a, Value c) {
        Value[] x = s(a), y = s(c);
        double[] o = null;
        for (int k = 0; k < x.length; k++) {
            double f = v(x[k]);
            Value[] e = s(y[k]);
            if (o == null) o = new double[e.length];
            for (int j = 0; j < e.length; j++) o[j] += f * v(e[j]);
        }
        Value[] res = new Value[o == null ? 0 : o.length];
        for (int j = 0; j < res.length; j++) res[j] = r(o[j]);
        return new TupleValue(res);
    }
}
