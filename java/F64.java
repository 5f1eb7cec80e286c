import tlc2.value.impl.*;

/**
 * TLC module override for spec/F64.tla: IEEE-754 arithmetic on values <<hi, lo>> (the two 32-bit halves of a double).
 * TLC picks up a class with the name of a module and replaces its operators by the static methods of the same name.
 */
public class F64 {
    private static double d(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        long hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val;
        return Double.longBitsToDouble((hi << 32) | (lo & 0xffffffffL));
    }
    private static Value f(double x) {
        long b = Double.doubleToLongBits(x);   // canonical NaN
        return new TupleValue(new Value[]{IntValue.gen((int) (b >> 32)), IntValue.gen((int) b)});
    }
    private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    private static String str(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        StringBuilder s = new StringBuilder();
        for (Value e : t.elems) s.append((char) ((IntValue) e).val);
        return s.toString();
    }

    public static Value FLoaded() { return BoolValue.ValTrue; }
    public static Value FAdd(Value x, Value y) { return f(d(x) + d(y)); }
    public static Value FSub(Value x, Value y) { return f(d(x) - d(y)); }
    public static Value FMul(Value x, Value y) { return f(d(x) * d(y)); }
    public static Value FDiv(Value x, Value y) { return f(d(x) / d(y)); }
    public static Value FNeg(Value x) { return f(-d(x)); }
    public static Value FAbs(Value x) { return f(Math.abs(d(x))); }
    public static Value FSqrt(Value x) { return f(StrictMath.sqrt(d(x))); }
    public static Value FFloor(Value x) { return f(StrictMath.floor(d(x))); }
    public static Value FCeil(Value x) { return f(StrictMath.ceil(d(x))); }
    public static Value FSin(Value x) { return f(StrictMath.sin(d(x))); }
    public static Value FCos(Value x) { return f(StrictMath.cos(d(x))); }
    public static Value FTan(Value x) { return f(StrictMath.tan(d(x))); }
    public static Value FAsin(Value x) { return f(StrictMath.asin(d(x))); }
    public static Value FAcos(Value x) { return f(StrictMath.acos(d(x))); }
    public static Value FAtan(Value x) { return f(StrictMath.atan(d(x))); }
    public static Value FAtan2(Value x, Value y) { return f(StrictMath.atan2(d(x), d(y))); }
    public static Value FExp(Value x) { return f(StrictMath.exp(d(x))); }
    public static Value FLog(Value x) { return f(StrictMath.log(d(x))); }
    public static Value FLog10(Value x) { return f(StrictMath.log10(d(x))); }
    public static Value FPow(Value x, Value y) {
        double a = d(x), c = d(y);
        // C99 and Java differ in two cases: pow(1, NaN/inf) and pow(-1, inf) are 1 in C.
        if (a == 1.0 || (a == -1.0 && Double.isInfinite(c))) return f(1.0);
        return f(StrictMath.pow(a, c));
    }
    public static Value FLt(Value x, Value y) { return b(d(x) < d(y)); }
    public static Value FLe(Value x, Value y) { return b(d(x) <= d(y)); }
    public static Value FEq(Value x, Value y) { return b(d(x) == d(y)); }
    public static Value FIsNaN(Value x) { return b(Double.isNaN(d(x))); }
    public static Value FIsFinite(Value x) { double v = d(x); return b(!Double.isNaN(v) && !Double.isInfinite(v)); }
    /** Same observable value: equal bits, any two NaNs, or zeros of any sign. */
    public static Value FSame(Value x, Value y) {
        double a = d(x), c = d(y);
        return b(a == c || (Double.isNaN(a) && Double.isNaN(c)));
    }
    /** Equal up to a relative error of 10^-e. */
    public static Value FNear(Value x, Value y, Value e) {
        double a = d(x), c = d(y), tol = Math.pow(10, -((IntValue) e).val);
        if (a == c || (Double.isNaN(a) && Double.isNaN(c))) return b(true);
        if (Double.isNaN(a) || Double.isNaN(c)) return b(false);
        if (Double.isInfinite(a) || Double.isInfinite(c)) {
            double o = Double.isInfinite(a) ? c : a, i = Double.isInfinite(a) ? a : c;
            return b(Math.signum(o) == Math.signum(i) && Math.abs(o) > Double.MAX_VALUE * (1 - tol));
        }
        return b(Math.abs(a - c) <= tol * Math.max(Math.abs(a), Math.abs(c)) + 1e-320);
    }
    public static Value FFromInt(Value n) { return f(((IntValue) n).val); }
    /** The value truncated toward zero fits a 32-bit integer. */
    public static Value FFitsInt(Value x) { double v = d(x); return b(v > -2147483649.0 && v < 2147483648.0); }
    /** Truncation toward zero, saturating. */
    public static Value FToInt(Value x) { return IntValue.gen((int) d(x)); }
    public static Value FTrunc(Value x) { double v = d(x); return f(v < 0 ? StrictMath.ceil(v) : StrictMath.floor(v)); }
    public static Value FIAnd(Value x, Value y) { return f(((int) d(x)) & ((int) d(y))); }
    public static Value FIOr(Value x, Value y) { return f(((int) d(x)) | ((int) d(y))); }
    public static Value FIRem(Value x, Value y) { return f((double) (((long) (int) d(x)) % ((long) (int) d(y)))); }
    public static Value FRnd32(Value x) { return f((double) (float) d(x)); }
    public static Value FParseDec(Value s) { return f(Double.parseDouble(str(s))); }
    public static Value FParseHex(Value s) {
        java.math.BigInteger n = new java.math.BigInteger(str(s), 16), m = java.math.BigInteger.ONE.shiftLeft(64).subtract(java.math.BigInteger.ONE);
        if (n.compareTo(m) > 0) n = m;
        return f(n.doubleValue());
    }
    public static Value FStr(Value x) { return new StringValue(Double.toString(d(x))); }
    public static Value CodesToStr(Value s) { return new StringValue(str(s)); }
    public static Value StrToCodes(Value s) {
        String t = ((StringValue) s).getVal().toString();
        Value[] v = new Value[t.length()];
        for (int i = 0; i < v.length; i++) v[i] = IntValue.gen(t.charAt(i));
        return new TupleValue(v);
    }
}
