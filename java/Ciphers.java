import tlc2.value.impl.*;

/** Overrides for module Ciphers (same definitions as the *Core operators there). */
public class Ciphers {
    private static final int[][] MUL = new int[256][256];
    private static final int[] PI = StdTables.Pi, PIINV = new int[256], LC = StdTables.KuzCoef;
    static {
        for (int a = 0; a < 256; a++) for (int b = 0; b < 256; b++) {
            int x = a, y = b, r = 0;
            while (y != 0) { if ((y & 1) == 1) r ^= x; x <<= 1; if (x >= 256) x ^= 0x1c3; y >>= 1; }
            MUL[a][b] = r;
        }
        for (int i = 0; i < 256; i++) PIINV[PI[i]] = i;
    }
    private static int lin(int[] b) { int r = 0; for (int i = 0; i < 16; i++) r ^= MUL[LC[i]][b[i]]; return r; }
    private static int[] L(int[] b) {
        int[] s = b.clone();
        for (int n = 0; n < 16; n++) { int t = lin(s); System.arraycopy(s, 0, s, 1, 15); s[0] = t; }
        return s;
    }
    private static int[] Linv(int[] b) {
        int[] s = b.clone();
        for (int n = 0; n < 16; n++) { int f = s[0]; System.arraycopy(s, 1, s, 0, 15); s[15] = f; s[15] = lin(s); }
        return s;
    }
    private static int[] xor(int[] a, int[] b) { int[] o = new int[16]; for (int i = 0; i < 16; i++) o[i] = a[i] ^ b[i]; return o; }
    private static int[] sub(int[] a, int[] t) { int[] o = new int[16]; for (int i = 0; i < 16; i++) o[i] = t[a[i]]; return o; }
    private static int[] get(Value v, int n) {
        final byte[] b = OvUtil.bytes(v);
        if (b.length != n) throw new RuntimeException("override: " + n + " bytes expected, got " + b.length);
        final int[] r = new int[n];
        for (int i = 0; i < n; i++) r[i] = b[i] & 255;
        return r;
    }
    private static Value put(int[] a) { final byte[] b = new byte[a.length]; for (int i = 0; i < b.length; i++) b[i] = (byte) a[i]; return OvUtil.seq(b); }
    public static Value KuzKeys(Value key) {
        final int[] k = get(key, 32);
        int[] a = java.util.Arrays.copyOfRange(k, 0, 16), b = java.util.Arrays.copyOfRange(k, 16, 32);
        final Value[] r = new Value[10];
        r[0] = put(a); r[1] = put(b);
        for (int g = 0; g < 4; g++) {
            for (int j = 1; j <= 8; j++) {
                final int[] c = new int[16]; c[15] = 8 * g + j;
                final int[] t = xor(L(sub(xor(a, L(c)), PI)), b);
                b = a; a = t;
            }
            r[2 * g + 2] = put(a); r[2 * g + 3] = put(b);
        }
        return new TupleValue(r);
    }
    public static Value KuzEnc(Value rk, Value bv) {
        final Value[] k = ((TupleValue) rk.toTuple()).elems;
        int[] b = get(bv, 16);
        for (int i = 0; i < 9; i++) b = L(sub(xor(b, get(k[i], 16)), PI));
        return put(xor(b, get(k[9], 16)));
    }
    public static Value KuzDec(Value rk, Value bv) {
        final Value[] k = ((TupleValue) rk.toTuple()).elems;
        int[] b = xor(get(bv, 16), get(k[9], 16));
        for (int i = 8; i >= 0; i--) b = xor(sub(Linv(b), PIINV), get(k[i], 16));
        return put(b);
    }
    private static Value mag(Value kv, Value bv, boolean dec) {
        final int[] k = get(kv, 32), b = get(bv, 8);
        final int[] w = new int[8];
        for (int i = 0; i < 8; i++) w[i] = k[4*i] << 24 | k[4*i+1] << 16 | k[4*i+2] << 8 | k[4*i+3];
        int l = b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3], r = b[4] << 24 | b[5] << 16 | b[6] << 8 | b[7];
        for (int n = 0; n < 32; n++) {
            final int i = dec ? 31 - n : n;
            int x = r + (i < 24 ? w[i % 8] : w[31 - i]), y = 0;
            for (int s = 0; s < 8; s++) y |= StdTables.MagmaPi[s][x >>> (4 * s) & 15] << (4 * s);
            y = Integer.rotateLeft(y, 11) ^ l;
            l = r; r = y;
        }
        final int[] o = new int[8];
        for (int i = 0; i < 4; i++) { o[i] = r >>> (24 - 8 * i) & 255; o[4 + i] = l >>> (24 - 8 * i) & 255; }
        return put(o);
    }
    public static Value MagEnc(Value k, Value b) { return mag(k, b, false); }
    public static Value MagDec(Value k, Value b) { return mag(k, b, true); }
}
