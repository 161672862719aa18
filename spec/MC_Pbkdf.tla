------------------------------ MODULE MC_Pbkdf ------------------------------
(* C10 on the specification: the derivation of R 50.1.111-2016 over a small keyed function.       *)
EXTENDS Bytes, Tables, FiniteSets, IOUtils
Thorough == "TIER" \in DOMAIN IOEnv /\ IOEnv.TIER = "thorough"
\* Keyed function with two-byte results.
P2(pw, x) == LET h == FoldLeft(LAMBDA a, b : (a * 131 + Pi[b + 1] + 7) % 65521, pw + 1, x)
             IN <<h % 256, h \div 256>>
INSTANCE Pbkdf WITH HL <- 2, Prf <- P2
VARIABLES pw, salt, c, n
vars == <<pw, salt, c, n>>
Init == /\ pw \in {0, 3, 300} /\ salt \in {<<>>, <<1>>, <<0, 0, 0, 1>>, <<9, 8, 7>>} /\ c = 1 /\ n = 0
MaxC == IF Thorough THEN 12 ELSE 6
MaxN == IF Thorough THEN 540 ELSE 12
Next == \/ c < MaxC /\ c' = c + 1 /\ UNCHANGED <<pw, salt, n>>
        \/ n < MaxN /\ n' = n + 1 /\ UNCHANGED <<pw, salt, c>>
DK == PDerive(pw, salt, c, n)
HasLength == Len(DK) = n
\* A longer key begins with a shorter one (C10): the size asked for never changes the bytes.
PrefixOfLonger == DK = Take(PDerive(pw, salt, c, n + 3), n)
\* Written out block by block, with the chain of intermediate values.
U(i) == FoldLeft(LAMBDA s, j : Append(s, P2(pw, s[Len(s)])), <<P2(pw, salt \o BE4(i))>>, [j \in 1..(c - 1) |-> j])
T(i) == FoldLeft(LAMBDA a, u : XorSeq(a, u), Zeros(2), U(i))
ByBlocks == \A i \in 1..((n + 1) \div 2) : SubSeq(DK, 2 * i - 1, Min2(2 * i, n)) = Take(T(i), Min2(2, n - 2 * i + 2))
\* Samples of very long keys are read block by block.
Blocks == n >= 6 => SubSeq(DK, 3, 6) = PDeriveBlocks(pw, salt, c, 2, 3)
ASSUME BE4(1) = <<0, 0, 0, 1>> /\ BE4(256) = <<0, 0, 1, 0>> /\ BE4(16909060) = <<1, 2, 3, 4>>
=============================================================================
