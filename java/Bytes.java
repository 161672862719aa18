import tlc2.value.impl.*;

/** Overrides for module Bytes. */
public class Bytes {
    public static Value XorSeq(Value a, Value b) {
        final byte[] x = OvUtil.bytes(a), y = OvUtil.bytes(b);
        final byte[] r = new byte[Math.min(x.length, y.length)];
        for (int i = 0; i < r.length; i++) r[i] = (byte) (x[i] ^ y[i]);
        return OvUtil.seq(r);
    }

    public static Value FlattenB(Value ss) {
        final Value[] e = ((TupleValue) ss.toTuple()).elems;
        final TupleValue[] t = new TupleValue[e.length];
        int n = 0;
        for (int i = 0; i < e.length; i++) { t[i] = (TupleValue) e[i].toTuple(); n += t[i].elems.length; }
        final Value[] r = new Value[n];
        n = 0;
        for (final TupleValue x : t) { System.arraycopy(x.elems, 0, r, n, x.elems.length); n += x.elems.length; }
        return new TupleValue(r);
    }
}
