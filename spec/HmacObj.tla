------------------------------ MODULE HmacObj -------------------------------
(* R 50.1.113-2016 over any incremental hash with a block of KBS bytes.                         *)
EXTENDS Bytes
CONSTANTS KBS, FInit(_), FUpdate(_, _), FDigest(_)
KPad(key) == TLCEval(key \o Zeros(KBS - Len(key)))
IPad(kp) == XorSeq(kp, Rep(54, KBS))
OPad(kp) == XorSeq(kp, Rep(92, KBS))
OneHash(size, msg) == FDigest(FUpdate(FInit(size), msg))
StdHmac(size, key, msg) ==
    OneHash(size, OPad(KPad(key)) \o OneHash(size, IPad(KPad(key)) \o msg))
\* The object: padded key and running inner hash.
KInner(size, kp) == FUpdate(FInit(size), IPad(kp))
KInit(size, key) == LET kp == KPad(key) IN [size |-> size, kp |-> kp, inner |-> KInner(size, kp)]
KUpdate(o, data) == [o EXCEPT !.inner = FUpdate(o.inner, data)]
KDigest(o) == OneHash(o.size, OPad(o.kp) \o FDigest(o.inner))
KReset(o) == [o EXCEPT !.inner = KInner(o.size, o.kp)]
KClear(o) == KReset([o EXCEPT !.kp = Zeros(KBS)])
============================================================================
