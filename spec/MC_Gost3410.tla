---------------------------- MODULE MC_Gost3410 -----------------------------
(* GOST R 34.10-2012: the example printed in the standard (A.1, A.2), the standardised parameter     *)
(* sets, and the Java overrides of point addition and multiplication.                               *)
EXTENDS Gost3410, CurveTab, FiniteSets, IOUtils
Thorough == "TIER" \in DOMAIN IOEnv /\ IOEnv.TIER = "thorough"
Digit(ch) == CHOOSE v \in 0..15 : SubSeq("0123456789abcdef", v + 1, v + 1) = ch
HexB(s) == [i \in 1..(Len(s) \div 2) |-> 16 * Digit(SubSeq(s, 2 * i - 1, 2 * i - 1)) + Digit(SubSeq(s, 2 * i, 2 * i))]
H(s) == NNorm(HexB(s))
VARIABLE t
\* One state per parameter set.
Init == t \in 1..Len(CurveTab)
Next == FALSE /\ UNCHANGED t
C == Curve(CurveTab[t].size, CurveTab[t].par)
Sound == CurveOk(C) /\ Base(C) # Inf
OrderOfBase == PMul(C, C.q, Base(C)) = Inf /\ PMul(C, C.m, Base(C)) = Inf
\* Not singular; m is q times a cofactor of 1 or 4.
Regular == MAdd(MMul(<<4>>, MMul(C.a, MMul(C.a, C.a, C.p), C.p), C.p), MMul(<<27>>, MMul(C.b, C.b, C.p), C.p), C.p) # <<>>
           /\ (C.m = C.q \/ C.m = NMul(<<4>>, C.q))
\* Override = definition, for small and for edge multiples.
NSmall == IF Thorough THEN 40 ELSE 6
Override == /\ \A n \in 0..NSmall : PMul(C, NInt(n), Base(C)) = PMulCore(C, NInt(n), Base(C))
            /\ PMul(C, NSub(C.q, NOne), Base(C)) = Neg(C, Base(C))
            /\ LET P == PMul(C, <<200, 1, 7>>, Base(C))
                   Q == PMul(C, <<3, 7>>, Base(C))
               IN PAdd(C, P, Q) = PAddCore(C, P, Q) /\ PAdd(C, P, P) = PAddCore(C, P, P) /\ PAdd(C, P, Neg(C, P)) = Inf
                  /\ PAdd(C, P, Inf) = P /\ PAdd(C, Inf, Q) = Q /\ PAdd(C, P, Q) = PMul(C, NAdd(<<200, 1, 7>>, <<3, 7>>), Base(C))
            /\ Thorough => LET k == NFix(<<>>, 0) \o <<77, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13>> IN PMul(C, k, Base(C)) = PMulCore(C, k, Base(C))
\* Sign, verify, and three ways to spoil it.
Works ==
    LET d == <<7, 1, 5>>
        key == NFix(d, C.size)
        dig == [i \in 1..C.size |-> (i * 37) % 256]
        sg == SignK(C, key, dig, <<99, 3, 1>>)
        pub == PubKey(C, key)
    IN /\ Verify(C, pub, dig, sg)
       /\ NonceOf(C, key, dig, sg) = <<99, 3, 1>>
       /\ ~Verify(C, pub, [dig EXCEPT ![1] = (@ + 1) % 256], sg)
       /\ ~Verify(C, pub, dig, [sg EXCEPT ![C.size] = (@ + 1) % 256])
       /\ ~Verify(C, PubKey(C, NFix(<<7, 1, 6>>, C.size)), dig, sg)
----------------------------------------------------------------------------
\* The example of the standard, A.1.
ExC == Curve(32, [p |-> H("8000000000000000000000000000000000000000000000000000000000000431"), a |-> <<7>>,
                  b |-> H("5fbff498aa938ce739b8e022fbafef40563f6e6a3472fc2a514c0ce9dae23b7e"),
                  m |-> H("8000000000000000000000000000000150fe8a1892976154c59cfc193accf5b3"),
                  q |-> H("8000000000000000000000000000000150fe8a1892976154c59cfc193accf5b3"),
                  x |-> <<2>>, y |-> H("08e2a8a0e65147d4bd6316030e16d19c85c97f0a9ca267122b96abbcea7e8fc8")])
ExKey == HexB("7a929ade789bb9be10ed359dd39a72c11b60961f49397eee1d19ce9891ec3b28")
ExDig == HexB("2dfbc1b372d89a1188c09c52e0eec61fce52032ab1022e8e67ece6672b043ee5")
ExK == H("77105c9b20bcd3122823c8cf6fcc7b956de33814e95b7fe64fed924594dceab3")
ExSig == HexB("41aa28d2f1ab148280cd9ed56feda41974053554a42767b83ad043fd39dc0493") \o
         HexB("01456c64ba4642a1653c235a98a60249bcd6d3f746b631df928014f6c5bf9c40")
ASSUME SignK(ExC, ExKey, ExDig, ExK) = ExSig
ASSUME PubKey(ExC, ExKey) = HexB("7f2b49e270db6d90d8595bec458b50c58585ba1d4e9b788f6689dbd8e56fd80b") \o
                            HexB("26f1b489d6701dd185c8413a977b3cbbaf64d1c593d26627dffb101a87ff77da")
ASSUME Verify(ExC, PubKey(ExC, ExKey), ExDig, ExSig)
=============================================================================
