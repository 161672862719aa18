------------------------------ MODULE MC_Prims ------------------------------
(* The primitives of the specification: known answers printed in the standards, the laws they must  *)
(* obey, and equality of every Java override with its TLA+ definition (the definitions run as TLA+    *)
(* here).  One state per test input.                                                                *)
EXTENDS Streebog, Ciphers, BigNat, FiniteSets, IOUtils
Thorough == "TIER" \in DOMAIN IOEnv /\ IOEnv.TIER = "thorough"
Digit(ch) == CHOOSE v \in 0..15 : SubSeq("0123456789abcdef", v + 1, v + 1) = ch
HexB(s) == [i \in 1..(Len(s) \div 2) |-> 16 * Digit(SubSeq(s, 2 * i - 1, 2 * i - 1)) + Digit(SubSeq(s, 2 * i, 2 * i))]
\* Pseudorandom bytes: a small generator, the same in every run.
RECURSIVE RndR(_, _, _)
RndR(x, n, acc) == IF n = 0 THEN acc ELSE LET y == (x * 48271) % 32749 IN RndR(((y * 7 + n) % 32749), n - 1, Append(acc, (y \div 3) % 256))
Rnd(seed, n) == RndR(seed + 1, n, <<>>)
N == IF Thorough THEN 400 ELSE 24
VARIABLE x
Init == x \in 1..N
Next == FALSE /\ UNCHANGED x
\* Some inputs are extreme.
In(tag, n) == CASE x = 1 -> Zeros(n) [] x = 2 -> Rep(255, n) [] x = 3 -> Zeros(n - 1) \o <<1>> [] x = 4 -> <<128>> \o Zeros(n - 1)
                [] OTHER -> Rnd(1000 * tag + 17 * x, n)
KeyX == In(1, 32)
BlkX == In(2, 16)
KuzOverride == LET rk == KuzKeysCore(KeyX)
               IN /\ KuzKeys(KeyX) = rk
                  /\ KuzEnc(rk, BlkX) = KuzEncCore(rk, BlkX)
                  /\ KuzDec(rk, BlkX) = KuzDecCore(rk, BlkX)
                  /\ KuzDecCore(rk, KuzEncCore(rk, BlkX)) = BlkX
MagOverride == LET b == Take(BlkX, 8)
               IN /\ MagEnc(KeyX, b) = MagEncCore(KeyX, b)
                  /\ MagDec(KeyX, b) = MagDecCore(KeyX, b)
                  /\ MagDecCore(KeyX, MagEncCore(KeyX, b)) = b
StreebogOverride == LET h == In(3, 64)
                        n == In(4, 64)
                        m == In(5, 64)
                    IN /\ G(h, n, m) = GCore(h, n, m)
                       /\ Add512(h, m) = Add512Core(h, m)
BytesOverride == LET a == In(6, ((x * 3) % 40) + 1)
                     b == In(7, ((x * 5) % 40) + 1)
                 IN /\ XorSeq(a, b) = [i \in 1..Min2(Len(a), Len(b)) |-> a[i] ^^ b[i]]
                    /\ FlattenB(<<a, <<>>, b, a>>) = FlattenCore(<<a, <<>>, b, a>>)
                    /\ FlattenB(<<>>) = <<>>
BigOverride ==
    LET a == NNorm(In(8, ((x * 3) % 20) + 1))
        b == NNorm(In(9, ((x * 7) % 20) + 1))
        m == IF NNorm(In(10, ((x * 5) % 12) + 1)) = <<>> THEN NOne ELSE NNorm(In(10, ((x * 5) % 12) + 1))
        am == NMod(a, m)
        bm == NMod(b, m)
        RECURSIVE Strip(_)
        Strip(s) == IF s # <<>> /\ s[1] = 0 THEN Strip(Drop(s, 1)) ELSE s
    IN /\ NNorm(<<0, 0>> \o a) = Strip(<<0, 0>> \o a)
       /\ NAdd(a, b) = NAddR(a, b, 1, 0, <<>>)
       /\ NCmp(a, b) = (IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE NCmpR(a, b, 1))
       /\ NSub(NAdd(a, b), b) = NSubR(NAdd(a, b), b, 1, 0, <<>>)
       /\ NSub(NAdd(a, b), b) = a
       /\ NMul(a, b) = NMulR(a, b, 1, <<>>)
       /\ NMod(a, m) = NModR(a, m, NBits(a) - 1, <<>>)
       /\ NBits(a) = (IF a = <<>> THEN 0 ELSE 8 * (Len(a) - 1) + (CHOOSE n \in 1..8 : a[1] < 2 ^ n /\ a[1] >= 2 ^ (n - 1)))
       /\ MMul(am, bm, m) = NModR(NMulR(am, bm, 1, <<>>), m, NBits(NMul(am, bm)) - 1, <<>>)
       /\ MAdd(am, bm, m) = NMod(NAdd(am, bm), m)
       /\ MAdd(MSub(am, bm, m), bm, m) = am
       /\ MPow(a, b, m) = MPowR(NMod(a, m), b, m, NBits(b) - 1, NMod(NOne, m))
\* Inverses modulo the prime 2^31 - 1 and a 256-bit prime.
P31 == <<127, 255, 255, 255>>
P256 == <<128>> \o Zeros(29) \o <<4, 49>>
InvOverride == \A p \in {P31, P256} : LET a == NNorm(In(11, 30)) IN
    /\ MInv(a, p) = (IF NMod(a, p) = <<>> THEN <<>> ELSE MPow(a, NSub(p, <<2>>), p))
    /\ NMod(a, p) = <<>> \/ MMul(MInv(a, p), NMod(a, p), p) = NOne
----------------------------------------------------------------------------
\* Laws of the tables.
ASSUME Cardinality({Pi[i] : i \in 1..256}) = 256
ASSUME \A i \in 1..8 : Cardinality({MagmaPi[i][j] : j \in 1..16}) = 16
ASSUME \A b \in {Rnd(5, 16), Zeros(15) \o <<1>>} : KLInv(KL(b)) = b /\ KSubInv(KSub(b)) = b
\* GOST R 34.12-2015, A.1 and A.2.
KKey == HexB("8899aabbccddeeff0011223344556677fedcba98765432100123456789abcdef")
KPt == HexB("1122334455667700ffeeddccbbaa9988")
MKey == HexB("ffeeddccbbaa99887766554433221100f0f1f2f3f4f5f6f7f8f9fafbfcfdfeff")
MPt == HexB("fedcba9876543210")
ASSUME KuzEncCore(KuzKeysCore(KKey), KPt) = HexB("7f679d90bebc24305a468d42b9d4edcd")
ASSUME MagEncCore(MKey, MPt) = HexB("4ee901e5c2d8ca3d")
ASSUME KuzKeysCore(KKey)[10] = HexB("72e9dd7416bcf45b755dbaa88e4a4043")
\* GOST R 34.11-2012, A.1: 63 bytes; and the empty message.
M1 == [i \in 1..63 |-> 48 + ((i + 9) % 10)]
ASSUME Hash(64, M1) = HexB("1b54d01a4af5b9d5cc3d86d68d285462b19abc2475222f35c085122be4ba1ffa00ad30f8767b3a82384c6574f024c311e2a481332b08ef7f41797891c1646f48")
ASSUME Hash(32, M1) = HexB("9d151eefd8590b89daa6ba6cb74af9275dd051026bb149a452fd84e5e57b5500")
ASSUME Hash(64, <<>>) = HexB("8e945da209aa869f0455928529bcae4679e9873ab707b55315f56ceb98bef0a7362f715528356ee83cda5f2aac4c6ad2ba3a715c1bcd81cb8e9f90bf4c1c1a8a")
ASSUME Hash(32, <<>>) = HexB("3f539a213e97c802cc229d474c6aa32a825a360b2a933a949fd925208d9ce1bb")
\* Round constants are the standard's (first bytes of C_1, last byte of C_12), A is invertible: LTab rows differ.
ASSUME \A j \in 0..7 : Cardinality({LTab[j][v] : v \in 0..255}) = 256
=============================================================================
