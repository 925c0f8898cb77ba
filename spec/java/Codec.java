import tlc2.value.impl.*;
import java.util.Arrays;

/** Evaluates the expensive operators of Codec.tla. */
public class Codec {
    private static IntValue I(int x) { return IntValue.gen(x); }

    private static TupleValue tup(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        if (t == null) throw new RuntimeException("not a sequence: " + v);
        return t;
    }

    /** Crc(bytes): bitwise, as CrcPure */
    public static Value Crc(Value bytes) {
        int crc = 0xffffffff;
        for (Value e : tup(bytes).elems) {
            crc ^= ((IntValue) e).val & 0xff;
            for (int k = 0; k < 8; k++) crc = (crc & 1) != 0 ? (crc >>> 1) ^ 0x9960034c : crc >>> 1;
        }
        crc = ~crc;
        return new TupleValue(new Value[] { I(crc >>> 16), I(crc & 0xffff) });
    }

    /** SyndromesOk(s): no sum of one to four distinct elements vanishes */
    public static Value SyndromesOk(Value s) {
        Value[] e = tup(s).elems;
        int n = e.length;
        int[] x = new int[n];
        for (int i = 0; i < n; i++) {
            TupleValue p = tup(e[i]);
            x[i] = (((IntValue) p.elems[0]).val << 16) | ((IntValue) p.elems[1]).val;
            if (x[i] == 0) return BoolValue.ValFalse;
        }
        int[] q = x.clone();
        Arrays.sort(q);
        for (int i = 1; i < n; i++) if (q[i] == q[i - 1]) return BoolValue.ValFalse;
        // Sums of two: distinct from each other and from every single syndrome
        long[] single = new long[1 << 26], pair = new long[1 << 26];
        for (int i = 0; i < n; i++) single[x[i] >>> 6] |= 1L << x[i];
        for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) {
            int y = x[i] ^ x[j];
            long bit = 1L << y;
            if (((single[y >>> 6] | pair[y >>> 6]) & bit) != 0) return BoolValue.ValFalse;
            pair[y >>> 6] |= bit;
        }
        return BoolValue.ValTrue;
    }
}
