import tlc2.value.impl.*;

/** Evaluates the operators of Float64.tla: a real is the pair of 32-bit halves of its IEEE double. */
public class Float64 {
    private static double d(Value v) {
        Value[] e = ((TupleValue) v.toTuple()).elems;
        return Double.longBitsToDouble(((long) ((IntValue) e[0]).val << 32) | (((IntValue) e[1]).val & 0xffffffffL));
    }

    private static Value r(double x) {
        long b = Double.doubleToLongBits(x);
        return new TupleValue(new Value[] { IntValue.gen((int) (b >> 32)), IntValue.gen((int) b) });
    }

    public static Value RInt(Value n) { return r(((IntValue) n).val); }
    public static Value RAdd(Value a, Value b) { return r(d(a) + d(b)); }
    public static Value RSub(Value a, Value b) { return r(d(a) - d(b)); }
    public static Value RMul(Value a, Value b) { return r(d(a) * d(b)); }
    public static Value RDiv(Value a, Value b) { return r(d(a) / d(b)); }
    public static Value RSqrt(Value a) { return r(Math.sqrt(d(a))); }
    public static Value RFloor(Value a) { return r(Math.floor(d(a))); }
    public static Value RLe(Value a, Value b) { return d(a) <= d(b) ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value RLt(Value a, Value b) { return d(a) < d(b) ? BoolValue.ValTrue : BoolValue.ValFalse; }
    /** Nearest integer, clipped to what TLC can represent */
    public static Value RRound(Value a) { return IntValue.gen((int) Math.min(2.0e9, Math.max(-2.0e9, Math.floor(d(a) + 0.5)))); }
    public static Value RShow(Value a) { return new StringValue(Double.toString(d(a))); }
}
