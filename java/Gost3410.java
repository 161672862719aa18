import tlc2.value.impl.*;
import java.math.BigInteger;

/** Overrides for module Gost3410: point addition and multiplication in affine coordinates. */
public class Gost3410 {
    private static BigInteger field(Value c, String f) {
        final RecordValue r = (RecordValue) c.toRcd();
        for (int i = 0; i < r.names.length; i++)
            if (r.names[i].toString().equals(f)) return OvUtil.nat(r.values[i]);
        throw new RuntimeException("override: no field " + f);
    }
    private static BigInteger[] pt(Value v) {
        final Value[] e = ((TupleValue) v.toTuple()).elems;
        return e.length == 0 ? null : new BigInteger[] {OvUtil.nat(e[0]), OvUtil.nat(e[1])};
    }
    private static Value val(BigInteger[] p) {
        return p == null ? new TupleValue(new Value[0]) : new TupleValue(new Value[] {OvUtil.nat(p[0]), OvUtil.nat(p[1])});
    }
    private static BigInteger[] add(BigInteger[] p, BigInteger[] q, BigInteger a, BigInteger m) {
        if (p == null) return q;
        if (q == null) return p;
        BigInteger l;
        if (p[0].equals(q[0]) && p[1].add(q[1]).mod(m).signum() == 0) return null;
        if (p[0].equals(q[0]) && p[1].equals(q[1]))
            l = p[0].multiply(p[0]).multiply(BigInteger.valueOf(3)).add(a).multiply(p[1].shiftLeft(1).modInverse(m)).mod(m);
        else
            l = q[1].subtract(p[1]).multiply(q[0].subtract(p[0]).mod(m).modInverse(m)).mod(m);
        final BigInteger x = l.multiply(l).subtract(p[0]).subtract(q[0]).mod(m);
        return new BigInteger[] {x, l.multiply(p[0].subtract(x)).subtract(p[1]).mod(m)};
    }
    public static Value PAdd(Value c, Value p, Value q) {
        return val(add(pt(p), pt(q), field(c, "a"), field(c, "p")));
    }
    public static Value PMul(Value c, Value n, Value p) {
        final BigInteger a = field(c, "a"), m = field(c, "p"), k = OvUtil.nat(n);
        final BigInteger[] b = pt(p);
        BigInteger[] r = null;
        for (int i = k.bitLength() - 1; i >= 0; i--) {
            r = add(r, r, a, m);
            if (k.testBit(i)) r = add(r, b, a, m);
        }
        return val(r);
    }
}
