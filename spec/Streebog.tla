------------------------------ MODULE Streebog ------------------------------
(* GOST R 34.11-2012.  512-bit vectors are 64-byte strings, least significant byte first.      *)
EXTENDS Bytes, Tables

\* Contribution of byte value v at position j (0 = least significant) of a row to l(row).
LByte(j, v) == FoldLeft(LAMBDA acc, b : IF (v \div (2 ^ b)) % 2 = 1
                                        THEN XorSeq(acc, Reverse(MatA[64 - (8 * j + b)])) ELSE acc,
                        Zeros(8), <<0, 1, 2, 3, 4, 5, 6, 7>>)
LTab == [j \in 0..7 |-> [x \in 0..255 |-> LByte(j, Pi[x + 1])]]
\* S (pi on every byte), P (byte i goes to row i mod 8), L (multiplication of rows by A).
LPS(b) == FlattenB([r \in 1..8 |->
            TLCEval(FoldLeft(LAMBDA acc, j : XorSeq(acc, LTab[j][b[8 * j + r]]), Zeros(8), <<0, 1, 2, 3, 4, 5, 6, 7>>))])
\* The block cipher E and the compression function g_N(h, m).
GCore(h, n, m) ==
    LET k1 == LPS(XorSeq(h, n))
        fin == FoldLeft(LAMBDA st, i : LET k == TLCEval(LPS(XorSeq(st[2], RC[i])))
                                       IN <<TLCEval(XorSeq(LPS(st[1]), k)), k>>,
                        <<XorSeq(k1, m), k1>>, [i \in 1..12 |-> i])
    IN XorSeq(XorSeq(fin[1], h), m)
\* Addition modulo 2^512, least significant byte first.
Add512Core(a, b) ==
    FoldLeft(LAMBDA st, i : LET t == a[i] + b[i] + st[2] IN <<Append(st[1], t % 256), t \div 256>>,
             <<<<>>, 0>>, [i \in 1..64 |-> i])[1]
\* Overridden by Streebog.java:
G(h, n, m) == GCore(h, n, m)
Add512(a, b) == Add512Core(a, b)
Id512(b) == b
LE512(bits) == <<bits % 256, (bits \div 256) % 256, (bits \div 65536) % 256, bits \div 16777216>> \o Zeros(60)

HIVOf(size) == Rep(IF size = 32 THEN 1 ELSE 0, 64)
\* The 256-bit digest is the most significant half.
HOutOf(h, size) == Tail_(h, size)
\* HInit, HUpdate, HDigest, StdHash, ... of the construction, for these primitives.
INSTANCE HashObj WITH HBS <- 64, HIV <- HIVOf, HG <- G, HAdd <- Add512, HZero <- Zeros(64), HBits <- LE512,
                      HNum <- Id512, HOut <- HOutOf
============================================================================
