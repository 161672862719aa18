------------------------------- MODULE MC_Mac -------------------------------
(* C08 on the specification: the incremental MAC object equals the MAC of the standard over the  *)
(* concatenation of the pieces, for every history of pieces (empty ones too) and MAC sizes, over  *)
(* a small keyed permutation of 3-byte blocks.                                                    *)
EXTENDS Bytes, Tables, FiniteSets, IOUtils
Thorough == "TIER" \in DOMAIN IOEnv /\ IOEnv.TIER = "thorough"
BLK == 3
MaxLen == IF Thorough THEN 14 ELSE 10
MaxUpd == IF Thorough THEN 8 ELSE 7
Keys == IF Thorough THEN 0..40 ELSE 0..12
\* Three Feistel-like steps: a permutation that depends on the key.
F(k, x, c) == Pi[((x + k + c) % 256) + 1]
E3(k, b) == LET a1 == b[1] ^^ F(k, b[2], 1)
                b1 == b[2] ^^ F(k, b[3], 2)
                c1 == b[3] ^^ F(k, a1, 3)
                a2 == a1 ^^ F(k, b1, 4)
                b2 == b1 ^^ F(k, c1, 5)
            IN <<b2, c1, a2>>
BSK(k) == BLK
PolyT(n) == Zeros(n - 1) \o <<27>>
INSTANCE Omac WITH Enc <- E3, BS <- BSK, Poly <- PolyT
VARIABLES o, msg
vars == <<o, msg>>
Data(from, n) == [i \in 1..n |-> (7 * (from + i)) % 256]
Init == \E k \in Keys, n \in 0..MaxUpd : o = OUpdate(OInit(k), Data(0, n)) /\ msg = Data(0, n)
Next == \E n \in 0..MaxUpd :
            /\ Len(msg) + n <= MaxLen
            /\ o' = OUpdate(o, Data(Len(msg), n))
            /\ msg' = msg \o Data(Len(msg), n)
AgreesWithStandard == ODigest(o, BLK) = StdMac(o.k, msg)
SizesAreSelections == \A n \in 1..BLK : ODigest(o, n) = Take(StdMac(o.k, msg), n)
Pending == Len(o.buf) <= BLK /\ (msg # <<>> => o.buf # <<>>)
NoHistory == o = OUpdate(OInit(o.k), msg)
\* Doubling is multiplication by x: K2 from K1 as K1 from the encrypted zero block.
SubKeys == o.k2 = Dbl(o.k1) /\ o.k1 = Dbl(E3(o.k, Zeros(BLK)))
\* Both reductions happen among the keys explored.
ASSUME {E3(k, Zeros(BLK))[1] >= 128 : k \in Keys} = {TRUE, FALSE}
ASSUME {SubKey1(k)[1] >= 128 : k \in Keys} = {TRUE, FALSE}
=============================================================================
