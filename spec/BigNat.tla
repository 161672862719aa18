------------------------------ MODULE BigNat -------------------------------
(* Natural numbers of any size as minimal big-endian byte strings: <<>> is 0 and the first    *)
(* byte is never 0.  TLC's integers have 32 bits, the numbers of GOST R 34.10 have 512.       *)
(* Every operator has the plain definition below; BigNat.java overrides them for speed and    *)
(* MC_Prims compares both.                                                                    *)
EXTENDS Bytes

RECURSIVE NNorm(_)
NNorm(s) == IF s = <<>> THEN <<>> ELSE IF s[1] = 0 THEN NNorm(Drop(s, 1)) ELSE s
\* Small TLC integer to number and back.
RECURSIVE NInt(_)
NInt(i) == IF i = 0 THEN <<>> ELSE Append(NInt(i \div 256), i % 256)
\* Fixed-width big-endian encoding (the number must fit).
NFix(a, n) == Zeros(n - Len(a)) \o a
NZero == <<>>
NOne == <<1>>

RECURSIVE NCmpR(_, _, _)
NCmpR(a, b, i) == IF i > Len(a) THEN 0
                  ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE NCmpR(a, b, i + 1)
\* -1, 0, 1
NCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE NCmpR(a, b, 1)
NLt(a, b) == NCmp(a, b) = -1
NLe(a, b) == NCmp(a, b) # 1

\* Little-endian digit of a, 0 beyond its length.
Dig(a, i) == IF i <= Len(a) THEN a[Len(a) + 1 - i] ELSE 0
RECURSIVE NAddR(_, _, _, _, _)
NAddR(a, b, i, carry, acc) ==
    IF i > Len(a) /\ i > Len(b) THEN (IF carry = 0 THEN acc ELSE <<carry>> \o acc)
    ELSE LET t == Dig(a, i) + Dig(b, i) + carry IN NAddR(a, b, i + 1, t \div 256, <<t % 256>> \o acc)
NAdd(a, b) == NAddR(a, b, 1, 0, <<>>)
RECURSIVE NSubR(_, _, _, _, _)
NSubR(a, b, i, borrow, acc) ==
    IF i > Len(a) THEN NNorm(acc)
    ELSE LET t == a[Len(a) + 1 - i] - Dig(b, i) - borrow
         IN NSubR(a, b, i + 1, IF t < 0 THEN 1 ELSE 0, <<IF t < 0 THEN t + 256 ELSE t>> \o acc)
\* a - b for b <= a
NSub(a, b) == NSubR(a, b, 1, 0, <<>>)
RECURSIVE NMulR(_, _, _, _)
NMulSmall(a, d) == IF d = 0 THEN <<>> ELSE NNorm(
    LET r == FoldRight(LAMBDA x, acc : LET t == x * d + acc[2] IN <<<<t % 256>> \o acc[1], t \div 256>>,
                       a, <<<<>>, 0>>)
    IN <<r[2]>> \o r[1])
NMulR(a, b, i, acc) ==
    IF i > Len(b) THEN acc
    ELSE NMulR(a, b, i + 1, NAdd(IF acc = <<>> THEN <<>> ELSE Append(acc, 0), NMulSmall(a, b[i])))
NMul(a, b) == NMulR(a, b, 1, <<>>)
\* Quotient and remainder by long division, one bit at a time.
NBit(a, i) == (Dig(a, (i \div 8) + 1) \div (2 ^ (i % 8))) % 2
NBits(a) == IF a = <<>> THEN 0 ELSE 8 * (Len(a) - 1) + (CHOOSE n \in 1..8 : a[1] < 2 ^ n /\ a[1] >= 2 ^ (n - 1))
RECURSIVE NModR(_, _, _, _)
NModR(a, m, i, r) ==
    IF i < 0 THEN r
    ELSE LET r1 == NAdd(NAdd(r, r), IF NBit(a, i) = 1 THEN NOne ELSE <<>>)
         IN NModR(a, m, i - 1, IF NCmp(r1, m) = -1 THEN r1 ELSE NSub(r1, m))
\* a mod m for m > 0
NMod(a, m) == NModR(a, m, NBits(a) - 1, <<>>)
\* (a * b) mod m, (a + b) mod m, (a - b) mod m for a, b < m
MMul(a, b, m) == NMod(NMul(a, b), m)
MAdd(a, b, m) == NMod(NAdd(a, b), m)
MSub(a, b, m) == NMod(IF NCmp(a, b) = -1 THEN NSub(NAdd(a, m), b) ELSE NSub(a, b), m)
\* a ^ e mod m
RECURSIVE MPowR(_, _, _, _, _)
MPowR(a, e, m, i, r) ==
    IF i < 0 THEN r
    ELSE LET s == MMul(r, r, m) IN MPowR(a, e, m, i - 1, IF NBit(e, i) = 1 THEN MMul(s, a, m) ELSE s)
MPow(a, e, m) == MPowR(NMod(a, m), e, m, NBits(e) - 1, NMod(NOne, m))
\* Inverse modulo a prime m (Fermat); 0 for 0.
MInv(a, m) == IF NMod(a, m) = <<>> THEN <<>> ELSE IF m = <<2>> THEN NOne ELSE MPow(a, NSub(m, <<2>>), m)
============================================================================
