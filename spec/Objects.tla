------------------------------ MODULE Objects -------------------------------
(* The public interface of gostcrypto as a state machine: a heap of objects and, for every     *)
(* call, the next heap and the result the standards define.  A call is a record                 *)
(*   [op, id, arguments..., out]                                                               *)
(* where out is what the real code returned or raised.  StepStd gives <<next heap, verdict>>;   *)
(* the verdict is "ok", "skip" (nothing is claimed about this call) or the clause that fails.   *)
EXTENDS Bytes, BigNat, Streebog, Ciphers, Gost3410, Oid, CurveTab, Utils

Has(ev, f) == f \in DOMAIN ev
Get(ev, f, dflt) == IF Has(ev, f) THEN ev[f] ELSE dflt
----------------------------------------------------------------------------
\* Argument values.  "b": bytes, "ba": bytearray, "rep": n times byte b; others are no byte objects.
IsB(v) == v.t \in {"b", "ba", "rep"}
Val(v) == IF v.t = "rep" THEN TLCEval(Rep(v.b, v.n)) ELSE v.v
LenV(v) == IF v.t = "rep" THEN v.n ELSE Len(v.v)
IsBN(v, n) == IsB(v) /\ LenV(v) = n
\* Results.
OutIs(out, b) == \/ out.t = "bytes" /\ out.v = b
                 \/ out.t = "sampled" /\ out.len = Len(b)
                    /\ \A i \in 1..Len(out.parts) : out.parts[i].v = SubSeq(b, out.parts[i].at + 1, out.parts[i].at + Len(out.parts[i].v))
OutHex(out, b) == out.t = "str" /\ out.v = HexCodes(b)
OutErrIn(out, errs) == out.t = "err" /\ <<out.cls, out.msg>> \in errs
E1(cls, msg) == {<<cls, cls \o ": " \o msg>>}
Describe(out) == IF out.t = "err" THEN "raised " \o out.cls \o " (" \o out.msg \o ")"
                 ELSE IF out.t = "hang" THEN "did not return" ELSE "returned another value"
----------------------------------------------------------------------------
\* Instances of the constructions over the real primitives.
AlgBS(k) == BSize(k.alg)
INSTANCE Modes WITH Enc <- EncB, Dec <- DecB, BS <- AlgBS
OPoly(n) == Zeros(n - 1) \o <<IF n = 16 THEN 135 ELSE 27>>
INSTANCE Omac WITH Enc <- EncB, BS <- AlgBS, Poly <- OPoly
INSTANCE HmacObj WITH KBS <- 64, FInit <- HInit, FUpdate <- HUpdate, FDigest <- HDigest
\* The key pads are compressed once: the same value as StdHmac(64, pw, data) (MC_Hmac).
KPrep(pw) == LET kp == KPad(pw)
             IN TLCEval([i |-> HUpdate(HInit(64), IPad(kp)), o |-> HUpdate(HInit(64), OPad(kp))])
Prf(kk, data) == TLCEval(HDigest(HUpdate(kk.o, HDigest(HUpdate(kk.i, data)))))
INSTANCE Pbkdf WITH HL <- 64
H512(m) == Hash(64, m)
INSTANCE Drbg WITH UL <- 63, DHL <- 64, DHash <- H512
----------------------------------------------------------------------------
\* Documented defaults.
IvK == <<18, 52, 86, 120, 144, 171, 206, 240, 161, 178, 195, 212, 229, 240, 1, 18,
         35, 52, 69, 86, 103, 120, 137, 144, 18, 19, 20, 21, 22, 23, 24, 25>>
IvM == <<18, 52, 86, 120, 144, 171, 205, 239, 35, 69, 103, 137, 10, 188, 222, 241>>
IvMCbc == IvM \o <<52, 86, 120, 144, 171, 205, 239, 18>>
IvCtrK == <<18, 52, 86, 120, 144, 171, 206, 240>>
IvCtrM == <<18, 52, 86, 120>>
DefaultIv(alg, mode) ==
    IF mode = "ctr" THEN (IF alg = "magma" THEN IvCtrM ELSE IvCtrK)
    ELSE IF alg = "magma" THEN (IF mode = "cbc" THEN IvMCbc ELSE IvM) ELSE IvK
Algs == {"kuznechik", "magma"}
CipherModes == {"ecb", "cbc", "cfb", "ofb", "ctr"}
HashNames == {"streebog256", "streebog512"}
HmacNames == {"HMAC_GOSTR3411_2012_256", "HMAC_GOSTR3411_2012_512"}
HashSize(n) == IF n \in {"streebog256", "HMAC_GOSTR3411_2012_256"} THEN 32 ELSE 64
CurveNamed(n) == LET m == SelectSeq(CurveTab, LAMBDA e : e.name = n) IN m[1].par
CurveOf(ev) == Curve(IF ev.mode = 1 THEN 32 ELSE 64, IF Has(ev, "curve") THEN CurveNamed(ev.curve) ELSE ev.par)
----------------------------------------------------------------------------
\* Errors a call must raise because of its arguments (any one of them when there are several);
\* empty for a correct call.  o is the object the call is made on.
Bad(ev, f, ok(_)) == Has(ev, f) /\ ~ok(ev[f])
HE(m) == E1("GOSTHashError", m)
ME(m) == E1("GOSTHMACError", m)
CE(m) == E1("GOSTCipherError", m)
PE(m) == E1("GOSTPBKDFError", m)
RE(m) == E1("GOSTRandomError", m)
SE(m) == E1("GOSTSignatureError", m)
If(c, s) == IF c THEN s ELSE {}
IvOk(alg, mode, v) ==
    IF mode = "ctr" THEN IsBN(v, BSize(alg) \div 2)
    ELSE IsB(v) /\ LenV(v) > 0 /\ LenV(v) % BSize(alg) = 0
CipherNewFaults(ev) ==
    IF ev.mode \notin CipherModes \cup {"mac"} THEN CE("unsupported cipher mode")
    ELSE If(ev.alg \notin Algs, CE("unsupported cipher algorithm"))
         \cup If(~IsBN(ev.key, 32), CE("invalid key value"))
         \cup If(ev.mode \in {"ecb", "cbc"} /\ Get(ev, "pad", 1) \notin {1, 2}, CE("invalid padding mode"))
         \cup If(ev.mode \in CipherModes \ {"ecb"} /\ Has(ev, "iv") /\ ev.alg \in Algs /\ ~IvOk(ev.alg, ev.mode, ev.iv),
                 CE("invalid initialization vector value"))
         \cup If(ev.mode = "mac" /\ Has(ev, "data") /\ ~IsB(ev.data), CE("invalid text data"))
OidErrs == {<<"GOSTOIDError", "invalid OID value">>, <<"GOSTOIDError", "invalid first SID value">>,
            <<"GOSTOIDError", "invalid second SID value">>}
Faults(o, ev) ==
    CASE ev.op = "h.new" -> If(ev.name \notin HashNames, HE("unsupported hash type"))
                            \cup If(Has(ev, "data") /\ ~IsB(ev.data), HE("invalid data value"))
      [] ev.op = "h.update" -> If(~IsB(ev.data), HE("invalid data value"))
      [] ev.op = "m.new" -> If(ev.name \notin HmacNames, ME("unsupported mode"))
                            \cup If(~IsB(ev.key) \/ LenV(ev.key) > 64, ME("invalid key value"))
                            \cup If(Has(ev, "data") /\ ~IsB(ev.data), ME("invalid data value"))
      [] ev.op = "m.update" -> If(~IsB(ev.data), ME("invalid data value"))
      [] ev.op = "c.new" -> CipherNewFaults(ev)
      [] ev.op = "c.enc" -> If(~IsB(ev.data), CE("invalid plaintext data"))
      [] ev.op = "c.dec" -> If(~IsB(ev.data), CE("invalid ciphertext data"))
      [] ev.op = "c.update" -> If(~IsB(ev.data), CE("invalid text data"))
      [] ev.op \in {"c.digest", "c.hexdigest"} -> If(ev.n < 1 \/ ev.n > AlgBS(o.k), CE("invalid message authentication code size"))
      [] ev.op = "p.new" -> If(~IsB(ev.password) \/ LenV(ev.password) > 64, PE("invalid password value"))
                            \cup If(Has(ev, "salt") /\ ~IsB(ev.salt), PE("invalid salt value"))
      [] ev.op \in {"p.derive", "p.hexderive"} -> If(ev.n < 1 \/ ev.n = 2147483647, PE("invalid size of the derived key"))
      [] ev.op = "r.new" -> If(Has(ev, "seed") /\ (~IsB(ev.seed) \/ LenV(ev.seed) \notin {0, Get(ev, "size_s", 48)}), RE("invalid seed value"))
      [] ev.op = "r.reset" -> If(Has(ev, "seed") /\ (~IsB(ev.seed) \/ LenV(ev.seed) \notin {0, o.size_s}), RE("invalid seed value"))
      [] ev.op = "s.new" -> If(ev.mode \notin {1, 2}, SE("unsupported signature mode"))
                            \cup If(ev.mode \in {1, 2} /\ ~CurveOk(CurveOf(ev)), SE("invalid parameters of the elliptic curve"))
      [] ev.op = "s.sign" ->
            If(~IsBN(ev.key, o.c.size) \/ NMod(FromB(Val(ev.key)), o.c.q) = <<>>, SE("invalid private key value"))
            \cup If(~IsBN(ev.digest, o.c.size), SE("invalid digest value"))
            \cup If(Has(ev, "k") /\ (~IsB(ev.k) \/ (LenV(ev.k) > 0 /\ (FromB(Val(ev.k)) = <<>> \/ ~NLt(FromB(Val(ev.k)), o.c.q)))),
                    SE("invalid random value"))
      [] ev.op = "s.verify" ->
            If(~IsBN(ev.pub, 2 * o.c.size), SE("invalid public key value"))
            \cup If(~IsBN(ev.digest, o.c.size), SE("invalid digest value"))
            \cup If(~IsBN(ev.sig, 2 * o.c.size), SE("invalid signature value"))
      [] ev.op = "s.pub" -> If(~IsBN(ev.key, o.c.size) \/ NMod(FromB(Val(ev.key)), o.c.q) = <<>>, SE("invalid private key"))
      [] OTHER -> {}
----------------------------------------------------------------------------
\* Objects made by the constructors.
\* "salt" of a key derivation object made without one: unknown until read (salt = {} here).
\* Seed of a generator: the given one, or else what the system source delivered in one piece of that
\* size; any other way of making a seed leaves the sequence unknown (<<>>).
SeedOf(ev, ss) ==
    IF Has(ev, "seed") /\ LenV(ev.seed) > 0 THEN <<GSeed(Val(ev.seed))>>
    ELSE LET d == Get(ev, "draws", <<>>) IN IF Len(d) = 1 /\ Len(d[1]) = ss THEN <<GSeed(d[1])>> ELSE <<>>
NewObj(ev) ==
    CASE ev.op = "h.new" ->
            [kind |-> "hash", name |-> ev.name,
             st |-> IF Has(ev, "data") THEN HUpdate(HInit(HashSize(ev.name)), Val(ev.data)) ELSE HInit(HashSize(ev.name))]
      [] ev.op = "m.new" ->
            LET k0 == KInit(HashSize(ev.name), Val(ev.key))
            IN [kind |-> "hmac", name |-> ev.name, st |-> IF Has(ev, "data") THEN KUpdate(k0, Val(ev.data)) ELSE k0]
      [] ev.op = "b.new" -> [kind |-> "block", k |-> Schedule(ev.alg, Val(ev.key)), live |-> TRUE]
      [] ev.op = "c.new" ->
            LET k == Schedule(ev.alg, Val(ev.key))
            IN IF ev.mode = "mac"
               THEN LET m0 == OInit(k)
                    IN [kind |-> "mac", k |-> k, live |-> TRUE, st |-> IF Has(ev, "data") THEN OUpdate(m0, Val(ev.data)) ELSE m0]
               ELSE [kind |-> "cipher", k |-> k, live |-> TRUE, fresh |-> TRUE,
                     st |-> MInit(k, ev.mode, IF ev.mode = "ecb" THEN <<>>
                                              ELSE IF Has(ev, "iv") THEN Val(ev.iv) ELSE DefaultIv(ev.alg, ev.mode),
                                  Get(ev, "pad", 1))]
      [] ev.op = "p.new" -> [kind |-> "pbkdf", pw |-> KPrep(Val(ev.password)), live |-> TRUE, c |-> Get(ev, "counter", 1000),
                             salt |-> IF Has(ev, "salt") /\ LenV(ev.salt) > 0 THEN <<Val(ev.salt)>> ELSE <<>>]
      [] ev.op = "r.new" -> LET ss == Get(ev, "size_s", 48)
                            IN [kind |-> "drbg", size_s |-> ss, n |-> ev.rand_size, dead |-> FALSE,
                                st |-> SeedOf(ev, ss)]
      [] ev.op = "s.new" -> [kind |-> "sig", mode |-> ev.mode, c |-> CurveOf(ev)]
      [] ev.op = "o.new" -> [kind |-> "oid", t |-> ev.text, s |-> ev.s]
IsNew(ev) == ev.op \in {"h.new", "m.new", "b.new", "c.new", "p.new", "r.new", "s.new", "o.new"}
----------------------------------------------------------------------------
V(c, clause, out) == IF c THEN "ok" ELSE clause \o ": " \o Describe(out)
NoneIs(out) == out.t = "none"
\* Call on an existing object with correct arguments: <<next object, verdict>>.
Calls(o, ev) ==
    LET out == ev.out
    IN
    CASE ev.op = "h.update" -> <<[o EXCEPT !.st = HUpdate(o.st, Val(ev.data))], V(NoneIs(out), "update", out)>>
      [] ev.op = "h.digest" -> <<o, V(OutIs(out, HDigest(o.st)), "digest is that of the standard", out)>>
      [] ev.op = "h.hexdigest" -> <<o, V(OutHex(out, HDigest(o.st)), "hexdigest is that of the standard", out)>>
      [] ev.op = "h.reset" -> <<[o EXCEPT !.st = HReset(o.st)], V(NoneIs(out), "reset", out)>>
      [] ev.op = "m.update" -> <<[o EXCEPT !.st = KUpdate(o.st, Val(ev.data))], V(NoneIs(out), "update", out)>>
      [] ev.op = "m.digest" -> <<o, V(OutIs(out, KDigest(o.st)), "HMAC is that of the standard", out)>>
      [] ev.op = "m.hexdigest" -> <<o, V(OutHex(out, KDigest(o.st)), "hexadecimal HMAC is that of the standard", out)>>
      [] ev.op = "m.reset" -> <<[o EXCEPT !.st = KReset(o.st)], V(NoneIs(out), "reset", out)>>
      [] ev.op = "m.clear" -> <<[o EXCEPT !.st = KClear(o.st)], V(NoneIs(out), "clear", out)>>
      [] ev.op = "b.enc" -> <<o, IF o.live THEN V(OutIs(out, EncB(o.k, Val(ev.data))), "encrypted block is that of the standard", out) ELSE "skip">>
      [] ev.op = "b.dec" -> <<o, IF o.live THEN V(OutIs(out, DecB(o.k, Val(ev.data))), "decrypted block is that of the standard", out) ELSE "skip">>
      [] ev.op \in {"b.clear", "c.clear", "p.clear"} -> <<[o EXCEPT !.live = FALSE], V(NoneIs(out), "clear", out)>>
      [] ev.op = "c.enc" ->
            IF ~o.live THEN <<o, "skip">>
            ELSE LET r == MEnc(o.st, Val(ev.data))
                     r2 == MEncLong(o.st, Val(ev.data))
                 IN IF OutIs(out, r[2]) THEN <<[o EXCEPT !.st = r[1]], "ok">>
                    ELSE IF OutIs(out, r2[2]) THEN <<[o EXCEPT !.st = r2[1]], "known:pad2">>
                    ELSE <<o, V(FALSE, "ciphertext is that of the standard", out)>>
      [] ev.op = "c.dec" ->
            IF ~o.live THEN <<o, "skip">>
            ELSE LET r == MDec(o.st, Val(ev.data)) IN <<[o EXCEPT !.st = r[1]], V(OutIs(out, r[2]), "plaintext is that of the standard", out)>>
      [] ev.op = "c.iv" -> <<o, IF ~o.live THEN "skip" ELSE V(OutIs(out, MIv(o.st)), "iv is the block last shifted in", out)>>
      [] ev.op = "c.counter" -> <<o, V(OutIs(out, MCounter(o.st)), "counter is the initial counter plus the blocks used", out)>>
      [] ev.op = "c.update" -> <<[o EXCEPT !.st = OUpdate(o.st, Val(ev.data))], V(NoneIs(out), "update", out)>>
      [] ev.op = "c.digest" -> <<o, IF o.live THEN V(OutIs(out, ODigest(o.st, ev.n)), "MAC is that of the standard", out) ELSE "skip">>
      [] ev.op = "c.hexdigest" -> <<o, IF o.live THEN V(OutHex(out, ODigest(o.st, ev.n)), "hexadecimal MAC is that of the standard", out) ELSE "skip">>
      [] ev.op \in {"p.derive", "p.hexderive"} ->
            <<o, IF ~o.live \/ o.salt = <<>> THEN "skip"
                 ELSE IF ev.op = "p.derive" /\ out.t = "sampled"
                 THEN V(out.len = ev.n /\ \A i \in 1..Len(out.parts) :
                            out.parts[i].v = Take(PBlock(o.pw, o.salt[1], o.c, (out.parts[i].at \div 64) + 1), Len(out.parts[i].v)),
                        "derived key is PBKDF2 of the standard", out)
                 ELSE LET e == PDerive(o.pw, o.salt[1], o.c, ev.n)
                      IN V(IF ev.op = "p.derive" THEN OutIs(out, e) ELSE OutHex(out, e), "derived key is PBKDF2 of the standard", out)>>
      [] ev.op = "p.salt" ->
            IF o.salt = <<>> THEN <<[o EXCEPT !.salt = IF out.t = "bytes" THEN <<out.v>> ELSE <<>>],
                                    V(out.t = "bytes" /\ Len(out.v) = 32, "generated salt has 32 bytes", out)>>
            ELSE <<o, V(OutIs(out, o.salt[1]), "salt is the given one", out)>>
      [] ev.op = "r.random" ->
            IF o.st = <<>> THEN <<o, V(out.t = "bytes" /\ Len(out.v) = o.n, "output has the requested size", out)>>
            ELSE IF o.dead THEN <<o, V(o.n = 0 \/ (out.t = "err" /\ out.cls = "GOSTRandomError"), "no output after exhaustion or clearing", out)>>
            ELSE LET r == GRandom(o.st[1], o.n)
                 IN <<[o EXCEPT !.st = <<r[1]>>, !.dead = r[2] # "ok"],
                      CASE r[2] = "ok" -> V(OutIs(out, r[3]), "output is that of the standard", out)
                        [] r[2] = "zero" -> V(OutErrIn(out, RE("the seed value is zero")), "zero seed is refused", out)
                        [] r[2] = "limit" -> V(OutErrIn(out, RE("exceeded the limit value of the counter")), "exhausted generator is refused", out)>>
      [] ev.op = "r.reset" ->
            <<[o EXCEPT !.dead = FALSE, !.st = SeedOf(ev, o.size_s)],
              V(NoneIs(out), "reset", out)>>
      [] ev.op = "r.clear" -> <<[o EXCEPT !.st = <<GDead(o.size_s)>>], V(NoneIs(out), "clear", out)>>
      [] ev.op = "s.sign" ->
            IF Has(ev, "k") /\ LenV(ev.k) > 0
            THEN LET sg == SignK(o.c, Val(ev.key), Val(ev.digest), FromB(Val(ev.k)))
                 IN <<o, IF sg = <<>> THEN V(OutErrIn(out, SE("invalid random value")), "random value that gives no signature is refused", out)
                         ELSE V(OutIs(out, sg), "signature is that of the standard", out)>>
            ELSE <<o, V(/\ out.t = "bytes" /\ Len(out.v) = 2 * o.c.size
                        /\ LET k == NonceOf(o.c, Val(ev.key), Val(ev.digest), out.v)
                           IN k # <<>> /\ SignK(o.c, Val(ev.key), Val(ev.digest), k) = out.v,
                        "signature is that of the standard for some random value", out)>>
      [] ev.op = "s.verify" ->
            LET ok == Verify(o.c, Val(ev.pub), Val(ev.digest), Val(ev.sig))
                onc == OnCurve(o.c, PubPoint(o.c, Val(ev.pub)))
            IN <<o, IF ok THEN V(out.t = "bool" /\ out.b, "a signature that satisfies the equation verifies", out)
                    ELSE IF onc THEN V(out.t = "bool" /\ ~out.b, "a signature that does not satisfy the equation is refused", out)
                    ELSE V((out.t = "bool" /\ ~out.b) \/ OutErrIn(out, SE("invalid public key value")),
                           "a public key that is no point of the curve is refused", out)>>
      [] ev.op = "s.pub" -> <<o, V(OutIs(out, PubKey(o.c, Val(ev.key))), "public key is the private key times the base point", out)>>
      [] ev.op = "o.text" -> <<o, V(out.t = "str" /\ out.v = o.t, "text form is the given string", out)>>
      [] ev.op = "o.name" -> <<o, V(out.t = "name" /\ out.s = NameOf(o.s), "name is that of the TC 26 register", out)>>
      [] ev.op = "o.digit" ->
            <<o, IF ValidOid(o.t) THEN V(out.t = "nums" /\ out.v = Components(o.t), "digit form is the tuple of components", out)
                 ELSE IF Numeric(o.t) THEN V(OutErrIn(out, OidErrs) \/ out.t = "nums", "invalid text raises the documented error", out)
                 ELSE V(OutErrIn(out, OidErrs), "invalid text raises the documented error", out)>>
      [] ev.op = "o.octet" ->
            <<o, IF ValidOid(o.t) THEN V(OutIs(out, DerOid(Components(o.t))), "octet form is the DER encoding", out)
                 ELSE V(OutErrIn(out, OidErrs), "invalid text raises the documented error", out)>>
      [] OTHER -> <<o, "unknown operation">>
\* A refused call: the state is kept.  A cipher clears its keys when it refuses an argument type,
\* after which nothing is claimed about it.
Refused(o, ev) ==
    IF ev.op \in {"c.enc", "c.dec", "c.update"} THEN [o EXCEPT !.live = FALSE] ELSE o
Drop1(heap, id) == [i \in DOMAIN heap \ {id} |-> heap[i]]
Put(heap, id, o) == TLCEval((id :> o) @@ heap)
\* Helpers of gostcrypto.utils: a call on no object.  num: a number as minimal big-endian bytes.
UBool(out, b) == out.t = "bool" /\ out.b = b
UVerdict(ev) ==
    LET out == ev.out
    IN CASE out.t = "absent" -> "skip"        \* a helper that is not there any more makes no mistakes
         [] ev.op = "u.toint" -> V(out.t = "num" /\ out.v = UToInt(Val(ev.data)), "number of the byte string", out)
         [] ev.op = "u.tobytes" -> IF ~UFits(ev.num, ev.n) THEN "skip" ELSE V(OutIs(out, UToBytes(ev.num, ev.n)), "big-endian bytes of the number", out)
         [] ev.op = "u.xor" -> V(OutIs(out, UXor(Val(ev.data), Val(ev.key))), "bytewise exclusive or", out)
         [] ev.op = "u.compare" -> V(UBool(out, UEqual(Val(ev.data), Val(ev.key))), "equality of byte strings", out)
         [] ev.op = "u.iszero" -> V(UBool(out, UIsZero(Val(ev.data))), "all bytes are zero", out)
         [] ev.op = "u.msb" -> V(out.t = "num" /\ (out.v # <<>> <=> UTop(Val(ev.data))), "highest bit", out)
         [] ev.op = "u.zero" -> V(OutIs(out, UZero(Val(ev.data))), "zeros of the same length", out)
         [] ev.op = "u.check" -> V(UBool(out, IsBN(ev.data, ev.n)), "byte string of that length", out)
IsHelper(ev) == ev.op \in {"u.toint", "u.tobytes", "u.xor", "u.compare", "u.iszero", "u.msb", "u.zero", "u.check"}
StepStd(heap, ev) ==
    IF IsHelper(ev) THEN <<heap, IF Get(ev, "argsok", TRUE) \/ ev.op = "u.zero" THEN UVerdict(ev) ELSE "a buffer passed to the call was modified">>
    ELSE IF ev.op = "free" THEN <<Drop1(heap, ev.id), "ok">>
    ELSE IF ev.op = "s.builtin" THEN
        <<heap, V(ev.out.t = "params" /\ \A f \in DOMAIN CurveNamed(ev.curve) : f \in DOMAIN ev.out.p /\ ev.out.p[f] = CurveNamed(ev.curve)[f],
                  "built-in parameters are the standardised ones", ev.out)>>
    ELSE IF IsNew(ev)
    THEN LET fs == Faults(<<>>, ev)
         IN IF fs # {} THEN <<heap, V(OutErrIn(ev.out, fs), "invalid argument raises the documented error", ev.out)>>
            ELSE IF ev.out.t = "obj" THEN <<Put(heap, ev.id, NewObj(ev)), "ok">>
            ELSE <<heap, V(FALSE, "object is created", ev.out)>>
    ELSE IF ev.id \notin DOMAIN heap \/ ev.out.t = "noobj" THEN <<heap, "skip">>
    ELSE IF ev.op \in {"h.copy", "m.copy"}
    THEN IF ev.out.t = "obj" THEN <<Put(heap, ev.to, heap[ev.id]), "ok">> ELSE <<heap, V(FALSE, "copy", ev.out)>>
    ELSE LET o == heap[ev.id]
             fs == Faults(o, ev)
         IN IF fs # {} THEN <<Put(heap, ev.id, Refused(o, ev)), V(OutErrIn(ev.out, fs), "invalid argument raises the documented error", ev.out)>>
            ELSE LET r == Calls(o, ev) IN <<Put(heap, ev.id, r[1]), r[2]>>
============================================================================
