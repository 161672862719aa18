------------------------------ MODULE Gost3410 ------------------------------
(* GOST R 34.10-2012 over curves y^2 = x^3 + a x + b modulo p, with base point P of prime order *)
(* q.  Numbers are BigNat; a point is <<x, y>>, the point at infinity is <<>>.                  *)
EXTENDS BigNat

Inf == <<>>
OnCurve(c, P) == P = Inf \/ (NLt(P[1], c.p) /\ NLt(P[2], c.p) /\
    MMul(P[2], P[2], c.p) = MAdd(MMul(MAdd(MMul(P[1], P[1], c.p), NMod(c.a, c.p), c.p), P[1], c.p), NMod(c.b, c.p), c.p))
Neg(c, P) == IF P = Inf THEN Inf ELSE <<P[1], MSub(<<>>, P[2], c.p)>>
PAddCore(c, P, Q) ==
    IF P = Inf THEN Q ELSE IF Q = Inf THEN P
    ELSE IF P[1] = Q[1] /\ MAdd(P[2], Q[2], c.p) = <<>> THEN Inf
    ELSE LET l == IF P = Q
                  THEN MMul(MAdd(MMul(<<3>>, MMul(P[1], P[1], c.p), c.p), NMod(c.a, c.p), c.p),
                            MInv(MAdd(P[2], P[2], c.p), c.p), c.p)
                  ELSE MMul(MSub(Q[2], P[2], c.p), MInv(MSub(Q[1], P[1], c.p), c.p), c.p)
             x3 == MSub(MSub(MMul(l, l, c.p), P[1], c.p), Q[1], c.p)
         IN TLCEval(<<x3, MSub(MMul(l, MSub(P[1], x3, c.p), c.p), P[2], c.p)>>)
\* n P, left to right.
RECURSIVE PMulR(_, _, _, _, _)
PMulR(c, n, P, i, acc) ==
    IF i < 0 THEN acc
    ELSE LET d == PAddCore(c, acc, acc)
         IN PMulR(c, n, P, i - 1, IF NBit(n, i) = 1 THEN PAddCore(c, d, P) ELSE d)
PMulCore(c, n, P) == PMulR(c, n, P, NBits(n) - 1, Inf)
\* Overridden by Gost3410.java:
PAdd(c, P, Q) == PAddCore(c, P, Q)
PMul(c, n, P) == PMulCore(c, n, P)
Base(c) == <<c.x, c.y>>

\* ------------------------------------------------------------- domain parameters
Par(par, f, dflt) == IF f \in DOMAIN par THEN par[f] ELSE dflt
\* Parameters as given (absent ones take the documented defaults), Edwards form converted.
\* s = (e - d) / 4, t = (e + d) / 6, a = s^2 - 3 t^2, b = 2 t^3 - t s^2,
\* x = s (1 + v) / (1 - v) + t, y = s (1 + v) / ((1 - v) u).
EdwardsToWeierstrass(p, e, d, u, v) ==
    LET s == MMul(MSub(NMod(e, p), NMod(d, p), p), MInv(<<4>>, p), p)
        t == MMul(MAdd(NMod(e, p), NMod(d, p), p), MInv(<<6>>, p), p)
        v1 == MAdd(NOne, NMod(v, p), p)
        w1 == MSub(NMod(NOne, p), NMod(v, p), p)
        s2 == MMul(s, s, p)
        t2 == MMul(t, t, p)
        q1 == MMul(MMul(s, v1, p), MInv(w1, p), p)
    IN [a |-> MSub(s2, MMul(NMod(<<3>>, p), t2, p), p),
        b |-> MSub(MMul(NMod(<<2>>, p), MMul(t, t2, p), p), MMul(t, s2, p), p),
        x |-> MAdd(q1, t, p),
        y |-> MMul(q1, MInv(u, p), p)]
Curve(size, par) ==
    LET p == Par(par, "p", NOne)
        a == Par(par, "a", <<>>)
        b == Par(par, "b", <<>>)
        x == Par(par, "x", <<>>)
        y == Par(par, "y", <<>>)
        ed == a = <<>> /\ b = <<>> /\ x = <<>> /\ y = <<>>
        w == IF ed THEN EdwardsToWeierstrass(p, Par(par, "e", <<>>), Par(par, "d", <<>>), Par(par, "u", <<>>), Par(par, "v", <<>>))
             ELSE [a |-> a, b |-> b, x |-> x, y |-> y]
    IN TLCEval([size |-> size, p |-> p, m |-> Par(par, "m", NOne), q |-> Par(par, "q", NOne),
                a |-> w.a, b |-> w.b, x |-> w.x, y |-> w.y])
Pow2(n) == <<2 ^ (n % 8)>> \o Zeros(n \div 8)
\* p^t mod q for t = 1..n
MovPowers(p, q, n) == FoldLeft(LAMBDA s, i : Append(s, MMul(s[Len(s)], s[1], q)), <<NMod(p, q)>>, [i \in 1..(n - 1) |-> i])
MovOk(c) == LET n == IF c.size = 32 THEN 31 ELSE 131
                s == MovPowers(c.p, c.q, n)
            IN \A i \in 1..n : s[i] # NMod(NOne, c.q)
\* Base point on the curve, compared modulo p as the equation is (coordinates may be given unreduced).
BaseOk(c) == OnCurve(c, <<NMod(c.x, c.p), NMod(c.y, c.p)>>)
QOk(c) == /\ NLt(Pow2(IF c.size = 32 THEN 254 ELSE 508), c.q)
          /\ NLt(c.q, Pow2(8 * c.size))
CurveOk(c) == c.m # c.p /\ QOk(c) /\ BaseOk(c) /\ MovOk(c)

\* ------------------------------------------------------------- signatures (size = c.size bytes)
FromB(s) == NNorm(s)
SigE(c, digest) == LET e == NMod(FromB(digest), c.q) IN IF e = <<>> THEN NOne ELSE e
\* <<>> when k gives no signature (r = 0 or s = 0).
SignNum(c, d, e, k) ==
    LET C == PMul(c, k, Base(c))
        r == IF C = Inf THEN <<>> ELSE NMod(C[1], c.q)
        s == MAdd(MMul(r, NMod(d, c.q), c.q), MMul(k, e, c.q), c.q)
    IN IF r = <<>> \/ s = <<>> THEN <<>> ELSE TLCEval(<<r, s>>)
SignK(c, key, digest, k) ==
    LET rs == SignNum(c, FromB(key), SigE(c, digest), k)
    IN IF rs = <<>> THEN <<>> ELSE NFix(rs[1], c.size) \o NFix(rs[2], c.size)
VerifyNum(c, Q, e, r, s) ==
    /\ r # <<>> /\ s # <<>> /\ NLt(r, c.q) /\ NLt(s, c.q)
    /\ LET v == MInv(e, c.q)
           z1 == MMul(s, v, c.q)
           z2 == MSub(<<>>, MMul(r, v, c.q), c.q)
           C == PAdd(c, PMul(c, z1, Base(c)), PMul(c, z2, Q))
       IN C # Inf /\ NMod(C[1], c.q) = r
PubPoint(c, pub) == <<FromB(Take(pub, c.size)), FromB(Drop(pub, c.size))>>
Verify(c, pub, digest, sig) ==
    LET Q == PubPoint(c, pub)
    IN OnCurve(c, Q) /\ VerifyNum(c, Q, SigE(c, digest), FromB(Take(sig, c.size)), FromB(Drop(sig, c.size)))
PubKey(c, key) == LET Q == PMul(c, NMod(FromB(key), c.q), Base(c)) IN NFix(Q[1], c.size) \o NFix(Q[2], c.size)
\* The nonce behind a signature: k = e^-1 (s - r d).
NonceOf(c, key, digest, sig) ==
    LET r == FromB(Take(sig, c.size))
        s == FromB(Drop(sig, c.size))
    IN MMul(MInv(SigE(c, digest), c.q), MSub(s, MMul(r, NMod(FromB(key), c.q), c.q), c.q), c.q)
============================================================================
