------------------------------- MODULE MC_Rng -------------------------------
(* C20 on the specification: choosing the nonce by rejection.  A source delivers uniform values of   *)
(* W bits; the first one that is usable (1 <= k < q, r # 0, s # 0) is taken.  The model runs every     *)
(* sequence of values and counts: after any number of draws, every usable nonce has been reached by     *)
(* the same number of sequences, the rest are still drawing, and no unusable value is ever taken.       *)
(* The two other unbiased ways that Relational allows (the top bits of a value, and that plus one) are   *)
(* counted too; taking the value modulo q is shown not to be uniform.                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, IOUtils
Thorough == "TIER" \in DOMAIN IOEnv /\ IOEnv.TIER = "thorough"
Wd == IF Thorough THEN 6 ELSE 5
Src == 0..(2 ^ Wd - 1)
Rounds == 3
Qs == IF Thorough THEN {5, 7, 11, 13, 17, 23, 31, 37, 61} ELSE {5, 7, 13, 17, 23, 31}
Bits(q) == CHOOSE n \in 1..10 : q < 2 ^ n /\ q >= 2 ^ (n - 1)
\* Values that give no signature for the message at hand.
Schemes == {"value", "topbits", "topbits1", "modulo"}
Take1(sch, q, d) == CASE sch = "value" -> d
                     [] sch = "topbits" -> d \div (2 ^ (Wd - Bits(q)))
                     [] sch = "topbits1" -> (d \div (2 ^ (Wd - Bits(q)))) + 1
                     [] sch = "modulo" -> d % q
VARIABLES q, bad, sch, n, open, count
vars == <<q, bad, sch, n, open, count>>
Usable(k) == k >= 1 /\ k < q /\ k \notin bad
Init == /\ q \in Qs /\ sch \in Schemes
        /\ bad \in {{}, {1}, {2, 3}, {q - 1}}
        /\ n = 0 /\ open = 1 /\ count = [k \in 1..(q - 1) |-> 0]
\* open: sequences that are still drawing.
Draw == /\ n < Rounds
        /\ n' = n + 1
        /\ count' = [k \in 1..(q - 1) |-> count[k] + open * Cardinality({d \in Src : Take1(sch, q, d) = k /\ Usable(k)})]
        /\ open' = open * Cardinality({d \in Src : ~Usable(Take1(sch, q, d))})
        /\ UNCHANGED <<q, bad, sch>>
Next == Draw
Uniform == sch # "modulo" => \A k, l \in 1..(q - 1) : Usable(k) /\ Usable(l) => count[k] = count[l]
NeverUnusable == \A k \in 1..(q - 1) : ~Usable(k) => count[k] = 0
AllReached == n > 0 => \A k \in 1..(q - 1) : Usable(k) => count[k] > 0
RECURSIVE Sum(_, _)
Sum(f, i) == IF i = 0 THEN 0 ELSE f[i] + Sum(f, i - 1)
\* Nothing is lost: every value of the first draw has been taken or goes on drawing.
Conserved == n = 1 => open + Sum(count, q - 1) = 2 ^ Wd
\* Modulo q is biased for q that does not divide the range.
ASSUME LET cnt(k) == Cardinality({d \in Src : d % 13 = k}) IN cnt(1) # cnt(12)
=============================================================================
