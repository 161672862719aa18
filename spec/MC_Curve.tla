------------------------------ MODULE MC_Curve ------------------------------
(* C12 - C15 on the specification, decided for every curve, base point, private key, message       *)
(* representative, random value and signature over small fields: the operators are those of          *)
(* Gost3410 that the real code is compared with.                                                    *)
EXTENDS Gost3410, FiniteSets, IOUtils
Thorough == "TIER" \in DOMAIN IOEnv /\ IOEnv.TIER = "thorough"
Primes == IF Thorough THEN {5, 7, 11, 13, 17, 19, 23} ELSE {5, 7, 11}
IsPrime(n) == n > 1 /\ \A k \in 2..(n - 1) : n % k # 0
\* Points by plain arithmetic.
Pts(p, a, b) == {<<x, y>> \in (0..(p - 1)) \X (0..(p - 1)) : (y * y) % p = (x * x * x + a * x + b) % p}
Order(p, a, b) == Cardinality(Pts(p, a, b)) + 1
Smooth(p, a, b) == (4 * a * a * a + 27 * b * b) % p # 0
Curves(p) == {ab \in (0..(p - 1)) \X (0..(p - 1)) : Smooth(p, ab[1], ab[2]) /\ Order(p, ab[1], ab[2]) > 1}
Rec(p, a, b, x, y, n) == [size |-> 1, p |-> NInt(p), a |-> NInt(a), b |-> NInt(b), x |-> NInt(x), y |-> NInt(y),
                          m |-> NInt(Order(p, a, b)), q |-> NInt(n)]
\* Order of a point, counted.
RECURSIVE OrdR(_, _, _, _)
OrdR(cv, P, A, n) == IF A = Inf THEN n ELSE OrdR(cv, P, PAddCore(cv, A, P), n + 1)
Ord(cv, P) == OrdR(cv, P, P, 1)
Given(p, ab) == {<<P, Ord(Rec(p, ab[1], ab[2], 0, 0, 1), <<NInt(P[1]), NInt(P[2])>>)>> : P \in Pts(p, ab[1], ab[2])}
\* Base points of prime order q > 3, q # p; the cofactor is whatever it is.
GoodPts(p, ab) == {P \in Given(p, ab) : P[2] > 3 /\ P[2] # p /\ IsPrime(P[2])}
\* One base point per curve in the quick tier, every point in the thorough one for p <= 13.
Bases(p, ab) == LET g == TLCEval(GoodPts(p, ab)) IN IF g = {} \/ (Thorough /\ p <= 13) THEN g ELSE {CHOOSE P \in g : TRUE}
\* d = 0: the group of a curve, of whatever order, is looked at.  d >= 1: the private key.
VARIABLES c, q, pts, d
vars == <<c, q, pts, d>>
PtsN(p, ab) == {<<NInt(Q[1]), NInt(Q[2])>> : Q \in Pts(p, ab[1], ab[2])}
Init == \E p \in Primes : \E ab \in Curves(p) :
            \/ /\ d = 0 /\ q = Order(p, ab[1], ab[2]) /\ pts = PtsN(p, ab)
               /\ \E P \in {CHOOSE P \in Pts(p, ab[1], ab[2]) : TRUE} : c = Rec(p, ab[1], ab[2], P[1], P[2], Order(p, ab[1], ab[2]))
            \/ \E P \in Bases(p, ab) : /\ c = Rec(p, ab[1], ab[2], P[1][1], P[1][2], P[2])
                                      /\ q = P[2] /\ pts = PtsN(p, ab) /\ d = 1
Next == d > 0 /\ d < q - 1 /\ d' = d + 1 /\ UNCHANGED <<c, q, pts>>
All == pts \cup {Inf}
PInt(P) == P
\* The group law: closed, neutral, inverse, commutative, associative (once per curve).
Closed == d = 0 => \A P, Q \in All : PAddCore(c, P, Q) \in All
Laws == d = 0 => \A P, Q \in All :
    /\ PAddCore(c, P, Q) = PAddCore(c, Q, P)
    /\ PAddCore(c, P, Inf) = P
    /\ PAddCore(c, P, Neg(c, P)) = Inf
    /\ PAdd(c, P, Q) = PAddCore(c, P, Q)
    /\ OnCurve(c, P)
Assoc == d = 0 /\ q <= 13 => \A P, Q, R \in All : PAddCore(c, PAddCore(c, P, Q), R) = PAddCore(c, P, PAddCore(c, Q, R))
Mults == d = 0 => \A n \in 0..(2 * q + 1) :
    /\ PMul(c, NInt(n), Base(c)) = FoldLeft(LAMBDA A, i : PAddCore(c, A, Base(c)), Inf, [i \in 1..n |-> i])
    /\ PMulCore(c, NInt(n), Base(c)) = PMul(c, NInt(n), Base(c))
OrderQ == d > 0 => PMul(c, c.q, Base(c)) = Inf /\ PMul(c, NInt(d), Base(c)) # Inf
\* Points off the curve are told apart.
OffCurve == d = 0 => \A x, y \in 0..(c.p[1] - 1) : OnCurve(c, <<NInt(x), NInt(y)>>) <=> <<NInt(x), NInt(y)>> \in pts
\* C14: the public key is d P and determines d.
Q0 == PMul(c, NInt(d), Base(c))
KeysDiffer == d > 0 => \A d2 \in 1..(q - 1) : PMul(c, NInt(d2), Base(c)) = Q0 <=> d2 = d
\* C12, C13: a signature verifies; a pair verifies exactly when it is the signature of the key for some
\* random value (so nothing that anybody else computes verifies by accident of the equation).
Sigs(e) == {SignNum(c, NInt(d), NInt(e), NInt(k)) : k \in 1..(q - 1)} \ {<<>>}
SignedVerifies == d > 0 => \A e \in 1..(q - 1) : \A s \in Sigs(e) : VerifyNum(c, Q0, NInt(e), s[1], s[2])
VerifiedIsSigned == d > 0 => \A e \in 1..(q - 1) : \A r, s \in 0..(q + 2) :
    VerifyNum(c, Q0, NInt(e), NInt(r), NInt(s)) <=> <<NInt(r), NInt(s)>> \in Sigs(e)
\* The random value is recovered from a signature and the key (how C12 and C20 look at the real one).
NonceRecovered == d > 0 => \A e \in 1..(q - 1), k \in 1..(q - 1) :
    LET s == SignK(c, <<d>>, <<e>>, NInt(k))
    IN s = <<>> \/ NonceOf(c, <<d>>, <<e>>, s) = NInt(k)
\* d and d + q are the same key; a digest that is a multiple of q is taken as 1.
KeyModQ == d > 0 => SignK(c, <<d>>, <<1>>, NInt(1)) = SignK(c, <<d + q>>, <<1>>, NInt(1))
           /\ (d + q < 256 => PubKey(c, <<d>>) = PubKey(c, <<d + q>>))
           /\ SigE(c, <<q>>) = NOne /\ SigE(c, <<0>>) = NOne
----------------------------------------------------------------------------
\* C15: the Edwards form of a curve and of its base point.
EdPrimes == IF Thorough THEN {5, 7, 11, 13, 17, 19} ELSE {5, 7, 11}
ASSUME \A p \in EdPrimes : \A e, dd \in 1..(p - 1) : e # dd =>
    \A u, v \in 0..(p - 1) :
        (e * u * u + v * v) % p = (1 + dd * u * u * v * v) % p /\ u # 0 /\ v # 1 =>
        LET w == EdwardsToWeierstrass(NInt(p), NInt(e), NInt(dd), NInt(u), NInt(v))
        IN OnCurve([p |-> NInt(p), a |-> w.a, b |-> w.b], <<w.x, w.y>>)
=============================================================================
