import tlc2.value.impl.*;
import java.math.BigInteger;

/** Overrides for module BigNat. */
public class BigNat {
    public static Value NNorm(Value a) { return OvUtil.nat(OvUtil.nat(a)); }
    public static Value NCmp(Value a, Value b) { return IntValue.gen(OvUtil.nat(a).compareTo(OvUtil.nat(b))); }
    public static Value NAdd(Value a, Value b) { return OvUtil.nat(OvUtil.nat(a).add(OvUtil.nat(b))); }
    public static Value NSub(Value a, Value b) { return OvUtil.nat(OvUtil.nat(a).subtract(OvUtil.nat(b))); }
    public static Value NMul(Value a, Value b) { return OvUtil.nat(OvUtil.nat(a).multiply(OvUtil.nat(b))); }
    public static Value NMod(Value a, Value m) { return OvUtil.nat(OvUtil.nat(a).mod(OvUtil.nat(m))); }
    public static Value MMul(Value a, Value b, Value m) { return OvUtil.nat(OvUtil.nat(a).multiply(OvUtil.nat(b)).mod(OvUtil.nat(m))); }
    public static Value MAdd(Value a, Value b, Value m) { return OvUtil.nat(OvUtil.nat(a).add(OvUtil.nat(b)).mod(OvUtil.nat(m))); }
    public static Value MSub(Value a, Value b, Value m) { return OvUtil.nat(OvUtil.nat(a).subtract(OvUtil.nat(b)).mod(OvUtil.nat(m))); }
    public static Value MPow(Value a, Value e, Value m) { return OvUtil.nat(OvUtil.nat(a).modPow(OvUtil.nat(e), OvUtil.nat(m))); }
    public static Value MInv(Value a, Value m) {
        final BigInteger x = OvUtil.nat(a), p = OvUtil.nat(m);
        return x.mod(p).signum() == 0 ? OvUtil.nat(BigInteger.ZERO) : OvUtil.nat(x.modInverse(p));
    }
    public static Value NBits(Value a) { return IntValue.gen(OvUtil.nat(a).bitLength()); }
}
