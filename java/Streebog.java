import tlc2.value.impl.*;

/** Overrides for module Streebog (same definitions as GCore and Add512Core there). */
public class Streebog {
    private static final long[][] T = new long[8][256];
    private static final long[][] C = new long[12][];
    static {
        final long[] a = new long[64];
        for (int i = 0; i < 64; i++) { long r = 0; for (int b : StdTables.MatA[i]) r = (r << 8) | b; a[i] = r; }
        for (int j = 0; j < 8; j++) for (int x = 0; x < 256; x++) {
            long r = 0; final int v = StdTables.Pi[x];
            for (int b = 0; b < 8; b++) if ((v >> b & 1) == 1) r ^= a[63 - (8 * j + b)];
            T[j][x] = r;
        }
        for (int i = 0; i < 12; i++) {
            final byte[] c = new byte[64];
            for (int k = 0; k < 64; k++) c[k] = (byte) StdTables.RC[i][k];
            C[i] = words(c);
        }
    }
    private static long[] words(byte[] b) {
        if (b.length != 64) throw new RuntimeException("override: 64 bytes expected");
        final long[] w = new long[8];
        for (int r = 0; r < 8; r++) for (int j = 7; j >= 0; j--) w[r] = (w[r] << 8) | (b[8 * r + j] & 255);
        return w;
    }
    private static long[] lps(long[] s) {
        final long[] o = new long[8];
        for (int r = 0; r < 8; r++) {
            long x = 0;
            for (int j = 0; j < 8; j++) x ^= T[j][(int) (s[j] >>> (8 * r)) & 255];
            o[r] = x;
        }
        return o;
    }
    private static long[] xor(long[] a, long[] b) {
        final long[] o = new long[8];
        for (int i = 0; i < 8; i++) o[i] = a[i] ^ b[i];
        return o;
    }
    public static Value G(Value hv, Value nv, Value mv) {
        final long[] h = words(OvUtil.bytes(hv)), n = words(OvUtil.bytes(nv)), m = words(OvUtil.bytes(mv));
        long[] k = lps(xor(h, n));
        long[] s = xor(k, m);
        for (int i = 0; i < 12; i++) { s = lps(s); k = lps(xor(k, C[i])); s = xor(s, k); }
        s = xor(xor(s, h), m);
        final byte[] o = new byte[64];
        for (int r = 0; r < 8; r++) for (int j = 0; j < 8; j++) o[8 * r + j] = (byte) (s[r] >>> (8 * j));
        return OvUtil.seq(o);
    }
    public static Value Add512(Value a, Value b) {
        final byte[] x = OvUtil.bytes(a), y = OvUtil.bytes(b), o = new byte[64];
        int c = 0;
        for (int i = 0; i < 64; i++) { c += (x[i] & 255) + (y[i] & 255); o[i] = (byte) c; c >>= 8; }
        return OvUtil.seq(o);
    }
}
