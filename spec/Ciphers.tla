------------------------------ MODULE Ciphers -------------------------------
(* GOST R 34.12-2015: Kuznyechik and Magma.  Blocks and keys in the byte order of the API      *)
(* (most significant byte first).                                                             *)
EXTENDS Bytes, Tables

----------------------------------------------------------------------------
\* GF(2^8) modulo x^8 + x^7 + x^6 + x + 1
RECURSIVE GFMul(_, _)
GFMul(a, b) == IF b = 0 THEN 0
               ELSE LET d == 2 * a
                        a2 == IF d >= 256 THEN d ^^ 451 ELSE d
                    IN (IF b % 2 = 1 THEN a ELSE 0) ^^ GFMul(a2, b \div 2)
GFTab == [c \in {1, 16, 32, 133, 148, 192, 194, 251} |-> [x \in 0..255 |-> GFMul(c, x)]]
PiInv == [y \in 0..255 |-> CHOOSE x \in 0..255 : Pi[x + 1] = y]
KSub(b) == TLCEval([i \in 1..16 |-> Pi[b[i] + 1]])
KSubInv(b) == TLCEval([i \in 1..16 |-> PiInv[b[i]]])
LinForm(b) == FoldLeft(LAMBDA acc, i : acc ^^ GFTab[KuzCoef[i]][b[i]], 0, [i \in 1..16 |-> i])
KR(b) == TLCEval(<<LinForm(b)>> \o SubSeq(b, 1, 15))
KRInv(b) == TLCEval(SubSeq(b, 2, 16) \o <<LinForm(SubSeq(b, 2, 16) \o <<b[1]>>)>>)
KL(b) == FoldLeft(LAMBDA acc, i : KR(acc), b, [i \in 1..16 |-> i])
KLInv(b) == FoldLeft(LAMBDA acc, i : KRInv(acc), b, [i \in 1..16 |-> i])
KC(i) == KL(Zeros(15) \o <<i>>)
\* Ten round keys from a 32-byte key.
KuzKeysCore(key) ==
    LET f(kk, i) == TLCEval(<<XorSeq(KL(KSub(XorSeq(kk[1], KC(i)))), kk[2]), kk[1]>>)
        Grp(kk, g) == FoldLeft(LAMBDA a, j : f(a, 8 * g + j), kk, <<1, 2, 3, 4, 5, 6, 7, 8>>)
        k0 == <<SubSeq(key, 1, 16), SubSeq(key, 17, 32)>>
        k1 == TLCEval(Grp(k0, 0))
        k2 == TLCEval(Grp(k1, 1))
        k3 == TLCEval(Grp(k2, 2))
        k4 == TLCEval(Grp(k3, 3))
    IN k0 \o k1 \o k2 \o k3 \o k4
KuzEncCore(rk, b) ==
    XorSeq(rk[10], FoldLeft(LAMBDA acc, i : KL(KSub(XorSeq(acc, rk[i]))), b, [i \in 1..9 |-> i]))
KuzDecCore(rk, b) ==
    FoldLeft(LAMBDA acc, i : TLCEval(XorSeq(KSubInv(KLInv(acc)), rk[10 - i])), TLCEval(XorSeq(b, rk[10])), [i \in 1..9 |-> i])

----------------------------------------------------------------------------
\* Magma.  32-bit words are pairs <<high half, low half>> of 16-bit numbers.
W(b, i) == <<b[i] * 256 + b[i + 1], b[i + 2] * 256 + b[i + 3]>>
WAdd(a, b) == LET lo == a[2] + b[2] IN <<(a[1] + b[1] + lo \div 65536) % 65536, lo % 65536>>
WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
Sub16(x, s) == MagmaPi[s + 1][(x % 16) + 1] + 16 * MagmaPi[s + 2][((x \div 16) % 16) + 1]
             + 256 * MagmaPi[s + 3][((x \div 256) % 16) + 1] + 4096 * MagmaPi[s + 4][(x \div 4096) + 1]
WSub(a) == <<Sub16(a[1], 4), Sub16(a[2], 0)>>
\* Rotation left by 11.
WRot11(a) == <<((a[1] * 2048) % 65536) + (a[2] \div 32), ((a[2] * 2048) % 65536) + (a[1] \div 32)>>
MagG(k, a) == WRot11(WSub(WAdd(a, k)))
\* Key word used in round i = 1..32.
MagKey(key, i) == LET j == IF i <= 24 THEN (i - 1) % 8 ELSE 32 - i IN W(key, 4 * j + 1)
WBytes(a) == <<a[1] \div 256, a[1] % 256, a[2] \div 256, a[2] % 256>>
\* ord: the sequence of round numbers (1..32 to encrypt, 32..1 to decrypt).
MagRun(key, b, ord) ==
    LET st == FoldLeft(LAMBDA s, i : TLCEval(<<s[2], WXor(MagG(MagKey(key, i), s[2]), s[1])>>),
                       <<W(b, 1), W(b, 5)>>, ord)
    IN WBytes(st[2]) \o WBytes(st[1])          \* the last round does not swap
MagEncCore(key, b) == MagRun(key, b, [i \in 1..32 |-> i])
MagDecCore(key, b) == MagRun(key, b, [i \in 1..32 |-> 33 - i])
----------------------------------------------------------------------------
\* Overridden by Ciphers.java; alg is "kuznechik" or "magma".
KuzKeys(key) == KuzKeysCore(key)
KuzEnc(rk, b) == KuzEncCore(rk, b)
KuzDec(rk, b) == KuzDecCore(rk, b)
MagEnc(key, b) == MagEncCore(key, b)
MagDec(key, b) == MagDecCore(key, b)

\* A scheduled key is a record [alg, rk].
Schedule(alg, key) == [alg |-> alg, rk |-> IF alg = "kuznechik" THEN KuzKeys(key) ELSE key]
BSize(alg) == IF alg = "kuznechik" THEN 16 ELSE 8
EncB(sk, b) == IF sk.alg = "kuznechik" THEN KuzEnc(sk.rk, b) ELSE MagEnc(sk.rk, b)
DecB(sk, b) == IF sk.alg = "kuznechik" THEN KuzDec(sk.rk, b) ELSE MagDec(sk.rk, b)
============================================================================
