import tlc2.value.impl.*;
import java.math.BigInteger;

/** Conversions between TLC values and Java arrays for the override classes. */
final class OvUtil {
    private static final IntValue[] SMALL = new IntValue[65536];
    static { for (int i = 0; i < SMALL.length; i++) SMALL[i] = IntValue.gen(i); }
    static byte[] bytes(Value v) {
        final TupleValue t = (TupleValue) v.toTuple();
        if (t == null) throw new RuntimeException("override: not a sequence: " + v);
        final Value[] e = t.elems;
        final byte[] r = new byte[e.length];
        for (int i = 0; i < e.length; i++) {
            final int x = ((IntValue) e[i]).val;
            if (x < 0 || x > 255) throw new RuntimeException("override: not a byte: " + x);
            r[i] = (byte) x;
        }
        return r;
    }
    static Value seq(byte[] b) {
        final Value[] e = new Value[b.length];
        for (int i = 0; i < b.length; i++) e[i] = SMALL[b[i] & 255];
        return new TupleValue(e);
    }
    static BigInteger nat(Value v) { return new BigInteger(1, bytes(v)); }
    static Value nat(BigInteger n) {
        if (n.signum() < 0) throw new RuntimeException("override: negative number");
        if (n.signum() == 0) return new TupleValue(new Value[0]);
        byte[] b = n.toByteArray();
        if (b[0] == 0) b = java.util.Arrays.copyOfRange(b, 1, b.length);
        return seq(b);
    }
    static int[] ints(Value v) {
        final Value[] e = ((TupleValue) v.toTuple()).elems;
        final int[] r = new int[e.length];
        for (int i = 0; i < e.length; i++) r[i] = ((IntValue) e[i]).val;
        return r;
    }
}
