------------------------------- MODULE MC_Drbg ------------------------------
(* C11 on the specification: the generator of R 1323565.1.006-2017 with a 3-byte U (a block of 4)     *)
(* and 2-byte digests, seeds of one and two bytes.  For every sequence of requests, resets and clears:  *)
(* the values of U hashed since the last seed are all different, start behind seed || 0 and go up by     *)
(* one; a request is answered exactly when there is enough of the counter left; an exhausted, cleared    *)
(* or zero generator gives nothing at all; output depends on the seed and the number of blocks drawn      *)
(* before, not on how the requests were cut.                                                             *)
EXTENDS Bytes, Tables, FiniteSets, IOUtils
Thorough == "TIER" \in DOMAIN IOEnv /\ IOEnv.TIER = "thorough"
H2(m) == LET h == FoldLeft(LAMBDA a, b : (a * 131 + Pi[b + 1] + 7) % 65521, 1, m) IN <<h % 256, h \div 256>>
INSTANCE Drbg WITH UL <- 3, DHL <- 2, DHash <- H2
\* The limit is 255 digests from one seed of two bytes, 65535 from one of one byte.
Sizes == IF Thorough THEN {0, 1, 2, 3, 5, 100, 254, 255, 256, 510, 511, 512} ELSE {0, 1, 3, 100, 509, 510, 511}
Seeds == IF Thorough THEN {<<0, 0>>, <<1, 2>>, <<255, 255>>, <<0, 1>>, <<1>>, <<255>>, <<0>>} ELSE {<<0, 0>>, <<255, 255>>, <<0, 1>>, <<255>>, <<0>>}
Limit(s) == IF Len(s) = 2 THEN 255 ELSE 65535
\* Positions a behaviour begins at (it could have come there by requests).
Starts(s) == IF Len(s) = 2 THEN {0} ELSE {0, 250, 65400}
\* g: generator; seed; from: where the behaviour began; used: blocks drawn since the seed; out: last output;
\* stat: last status; want: the status it should have; dead: exhausted, cleared or seeded with zeros
VARIABLES g, seed, from, used, stat, want, out, dead
vars == <<g, seed, from, used, stat, want, out, dead>>
UOf(s, j) == AddBE(s \o Zeros(3 - Len(s)), j)
Init == \E s \in Seeds : \E f \in Starts(s) :
            /\ g = [GSeed(s) EXCEPT !.u = UOf(s, f)] /\ seed = s /\ from = f /\ used = f
            /\ stat = "" /\ want = "" /\ out = <<>> /\ dead = IsZero(s)
NB(n) == (n + 1) \div 2
Random(n) == LET r == GRandom(g, n)
                 w == IF dead THEN "zero" ELSE IF used + NB(n) > Limit(seed) THEN "limit" ELSE "ok"
             IN /\ used - from < (IF Thorough THEN 520 ELSE 256)
                /\ g' = r[1] /\ stat' = r[2] /\ out' = r[3] /\ want' = w
                /\ dead' = (dead \/ w # "ok")
                /\ used' = IF w = "ok" THEN used + NB(n) ELSE used
                /\ UNCHANGED <<seed, from>>
Reset(s) == g' = GSeed(s) /\ seed' = s /\ from' = 0 /\ used' = 0 /\ stat' = "" /\ want' = "" /\ out' = <<>> /\ dead' = IsZero(s)
Clear == g' = GDead(g.size) /\ dead' = TRUE /\ stat' = "" /\ want' = "" /\ out' = <<>> /\ UNCHANGED <<seed, from, used>>
Next == (\E n \in Sizes : Random(n)) \/ (\E s \in Seeds : Reset(s)) \/ Clear
CounterIsPosition == ~dead => g.u = UOf(seed, used)
\* The seed part never changes: the counter cannot run into it.
SeedKept == ~dead => Take(g.u, Len(seed)) = seed
WithinLimit == used <= Limit(seed)
AnsweredWhenPossible == stat = want
RequestsAreCutsOfOneStream == stat = "ok" /\ out # <<>> =>
    LET nb == NB(Len(out))
        at == used - nb
    IN \A j \in 1..nb : LET x == H2(UOf(seed, at + j))
                        IN SubSeq(out, 2 * j - 1, Min2(2 * j, Len(out))) = IF j < nb THEN x ELSE Tail_(x, Len(out) - 2 * (nb - 1))
NothingWhenDead == dead => out = <<>> /\ stat # "ok"
\* All inputs of the hash are different over the whole life of a seed.
ASSUME \A s \in {x \in Seeds : Len(x) = 2} : Cardinality({UOf(s, j) : j \in 1..255}) = 255
ASSUME Cardinality({UOf(<<7>>, j) : j \in 1..65535}) = 65535
=============================================================================
