#!/usr/bin/env python3
"""Plants errors in copies of the specification and checks that the models refute every one of them.

    python3 tools/spec_mutants.py [LABEL...]

Not a registered check: it judges the specification and its models, not the library."""
import concurrent.futures as cf, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = '/opt/veriftools/tla/'
# (model, module changed, old text, new text, label)
M = [
 # the hashing object
 ('MC_Hash', 'HashObj', 'HReset(st) == HInit(st.size)', 'HReset(st) == [HInit(st.size) EXCEPT !.buf = st.buf]', 'hash-reset-keeps-pending-bytes'),
 ('MC_Hash', 'HashObj', 'HReset(st) == HInit(st.size)', 'HReset(st) == [HInit(st.size) EXCEPT !.n = st.n]', 'hash-reset-keeps-counter'),
 ('MC_Hash', 'HashObj', 'HReset(st) == HInit(st.size)', 'HReset(st) == [HInit(st.size) EXCEPT !.sig = st.sig]', 'hash-reset-keeps-checksum'),
 ('MC_Hash', 'HashObj', 'nb == Len(all) \\div HBS', 'nb == IF Len(all) = 0 THEN 0 ELSE (Len(all) - 1) \\div HBS', 'hash-keeps-a-whole-block-pending'),
 ('MC_Hash', 'HashObj', 'n1 == HAdd(st.n, HBits(8 * Len(st.buf)))', 'n1 == HAdd(st.n, HBits(8 * HBS))', 'hash-counts-padding'),
 ('MC_Hash', 'HashObj', 's1 == HAdd(st.sig, HNum(m))', 's1 == st.sig', 'hash-checksum-without-last-block'),
 ('MC_Hash', 'HashObj', 'IN [st2 EXCEPT !.buf = TLCEval(Drop(all, HBS * nb))]', 'IN [st2 EXCEPT !.buf = IF nb = 0 THEN all ELSE <<>>]', 'hash-drops-tail-after-blocks'),
 ('MC_Hash', 'HashObj', 'all == TLCEval(st.buf \\o data)', 'all == TLCEval(data \\o st.buf)', 'hash-pending-order'),
 # the HMAC object
 ('MC_Hmac', 'HmacObj', 'KReset(o) == [o EXCEPT !.inner = KInner(o.size, o.kp)]', 'KReset(o) == o', 'hmac-reset-does-nothing'),
 ('MC_Hmac', 'HmacObj', 'KReset(o) == [o EXCEPT !.inner = KInner(o.size, o.kp)]', 'KReset(o) == [o EXCEPT !.inner = FInit(o.size)]', 'hmac-reset-loses-key'),
 ('MC_Hmac', 'HmacObj', 'KClear(o) == KReset([o EXCEPT !.kp = Zeros(KBS)])', 'KClear(o) == KReset(o)', 'hmac-clear-keeps-key'),
 ('MC_Hmac', 'HmacObj', 'KClear(o) == KReset([o EXCEPT !.kp = Zeros(KBS)])', 'KClear(o) == [o EXCEPT !.kp = Zeros(KBS)]', 'hmac-clear-keeps-inner-hash'),
 ('MC_Hmac', 'HmacObj', 'KDigest(o) == OneHash(o.size, OPad(o.kp) \\o FDigest(o.inner))', 'KDigest(o) == OneHash(o.size, IPad(o.kp) \\o FDigest(o.inner))', 'hmac-outer-pad'),
 # the MAC object
 ('MC_Mac', 'Omac', 'nb == IF all = <<>> THEN 0 ELSE (Len(all) - 1) \\div bs', 'nb == Len(all) \\div bs', 'mac-consumes-last-whole-block'),
 ('MC_Mac', 'Omac', 'XorSeq(XorSeq(o.cur, pl), IF whole THEN o.k1 ELSE o.k2)', 'XorSeq(XorSeq(o.cur, pl), o.k1)', 'mac-one-subkey'),
 ('MC_Mac', 'Omac', 'SubKey2(k) == Dbl(SubKey1(k))', 'SubKey2(k) == ShiftLeft1(SubKey1(k))', 'mac-second-subkey-unreduced'),
 ('MC_Mac', 'Omac', 'pl == IF whole THEN o.buf ELSE o.buf \\o <<128>> \\o Zeros(bs - 1 - Len(o.buf))', 'pl == o.buf \\o Zeros(bs - Len(o.buf))', 'mac-zero-padding'),
 # the modes
 ('MC_Modes', 'Modes', 'Shift(reg, b) == TLCEval(Drop(reg, Len(b)) \\o b)', 'Shift(reg, b) == TLCEval(b \\o Drop(reg, Len(b)))', 'modes-register-replaced-at-front'),
 ('MC_Modes', 'Modes', 'CbcD(k, reg, b) == <<XorSeq(Dec(k, b), Take(reg, BS(k))), Shift(reg, b)>>', 'CbcD(k, reg, b) == LET x == XorSeq(Dec(k, b), Take(reg, BS(k))) IN <<x, Shift(reg, x)>>', 'cbc-chains-plaintext'),
 ('MC_Modes', 'Modes', 'c == IF dec THEN b ELSE x', 'c == x', 'cfb-decrypts-with-plaintext'),
 ('MC_Modes', 'Modes', '<<XorSeq(g, b), Shift(reg, g)>>', 'LET x == XorSeq(g, b) IN <<x, Shift(reg, TLCEval(x \\o Drop(g, Len(x))))>>', 'ofb-shifts-output'),
 ('MC_Modes', 'Modes', 'IN <<x, Shift(reg, TLCEval(c \\o Drop(g, Len(c))))>>', 'IN <<x, IF Len(c) < BS(k) THEN reg ELSE Shift(reg, c)>>', 'cfb-gamma-twice-after-ragged-piece'),
 ('MC_Modes', 'Modes', 'CtrX(k, reg, b) == <<XorSeq(Enc(k, reg), b), IncBE(reg)>>', 'CtrX(k, reg, b) == <<XorSeq(Enc(k, reg), b), IF Len(b) < BS(k) THEN reg ELSE IncBE(reg)>>', 'ctr-gamma-twice-after-ragged-piece'),
 ('MC_Modes', 'Modes', 'CtrX(k, reg, b) == <<XorSeq(Enc(k, reg), b), IncBE(reg)>>', 'CtrX(k, reg, b) == <<XorSeq(Enc(k, reg), b), Drop(IncBE(<<0>> \\o Drop(reg, Len(reg) - 1)), 0)>>', 'ctr-loses-register'),
 ('MC_Modes', 'Modes', 'Pad2(d, bs) == d \\o <<128>> \\o Zeros(bs - 1 - (Len(d) % bs))', 'Pad2(d, bs) == IF Len(d) % bs = 0 THEN d ELSE d \\o <<128>> \\o Zeros(bs - 1 - (Len(d) % bs))', 'pad2-nothing-for-whole-blocks'),
 # PBKDF2
 ('MC_Pbkdf', 'Pbkdf', '(i \\div 256) % 256, i % 256>>', '0, i % 256>>', 'pbkdf-block-number-one-byte'),
 ('MC_Pbkdf', 'Pbkdf', '<<u1, u1>>, [j \\in 1..(c - 1) |-> j])[2]', '<<u1, u1>>, [j \\in 1..c |-> j])[2]', 'pbkdf-one-iteration-more'),
 ('MC_Pbkdf', 'Pbkdf', 'TLCEval(<<u, XorSeq(st[2], u)>>)', 'TLCEval(<<u, u>>)', 'pbkdf-without-xor'),
 ('MC_Pbkdf', 'Pbkdf', '(n + HL - 1) \\div HL', 'n \\div HL', 'pbkdf-loses-partial-block'),
 # the generator
 ('MC_Drbg', 'Drbg', 'ELSE IF GLast(acc[1]) THEN', 'ELSE IF FALSE THEN', 'drbg-never-exhausted'),
 ('MC_Drbg', 'Drbg', 'GLast(o) == \\A i \\in (o.size + 1)..UL', 'GLast(o) == \\A i \\in (o.size + 2)..UL', 'drbg-exhausted-early'),
 ('MC_Drbg', 'Drbg', 'Tail_(s[2], n - DHL * (nb - 1))', 'Take(s[2], n - DHL * (nb - 1))', 'drbg-head-of-last-digest'),
 ('MC_Drbg', 'Drbg', 'u == TLCEval(IncBE(o.u))', 'u == TLCEval([o.u EXCEPT ![UL] = (@ + 1) % 256])', 'drbg-counter-without-carry'),
 ('MC_Drbg', 'Drbg', 'THEN <<GDead(o.size), "limit", <<>>>>', 'THEN <<acc[1], "limit", acc[3]>>', 'drbg-gives-part-of-a-refused-request'),
 # elliptic curves and signatures
 ('MC_Curve', 'Gost3410', 'MAdd(MMul(<<3>>, MMul(P[1], P[1], c.p), c.p), NMod(c.a, c.p), c.p)', 'MMul(<<3>>, MMul(P[1], P[1], c.p), c.p)', 'curve-doubling-without-a'),
 ('MC_Curve', 'Gost3410', 'ELSE IF P[1] = Q[1] /\\ MAdd(P[2], Q[2], c.p) = <<>> THEN Inf', 'ELSE IF P[1] = Q[1] /\\ P # Q THEN Inf', 'curve-doubling-a-point-of-order-2'),
 ('MC_Curve', 'Gost3410', 'IF P = Inf THEN Q ELSE IF Q = Inf THEN P', 'IF P = Inf THEN Q ELSE IF Q = Inf THEN Inf', 'curve-adding-infinity'),
 ('MC_Curve', 'Gost3410', '/\\ r # <<>> /\\ s # <<>> /\\ NLt(r, c.q) /\\ NLt(s, c.q)', '/\\ r # <<>> /\\ s # <<>>', 'verify-without-upper-bounds'),
 ('MC_Curve', 'Gost3410', '/\\ r # <<>> /\\ s # <<>> /\\ NLt(r, c.q) /\\ NLt(s, c.q)', '/\\ NLt(r, c.q) /\\ NLt(s, c.q)', 'verify-without-lower-bounds'),
 ('MC_Gost3410', 'Gost3410', 'z2 == MSub(<<>>, MMul(r, v, c.q), c.q)', 'z2 == MMul(r, v, c.q)', 'verify-sign-of-z2'),
 ('MC_Gost3410', 'Gost3410', 's == MAdd(MMul(r, NMod(d, c.q), c.q), MMul(k, e, c.q), c.q)', 's == MAdd(MMul(r, NMod(d, c.q), c.q), k, c.q)', 'sign-ignores-message'),
 ('MC_Curve', 'Gost3410', 'IF r = <<>> \\/ s = <<>> THEN <<>> ELSE TLCEval(<<r, s>>)', 'IF r = <<>> THEN <<>> ELSE TLCEval(<<r, s>>)', 'sign-gives-zero-s'),
 ('MC_Curve', 'Gost3410', 'IF e = <<>> THEN NOne ELSE e', 'e', 'sign-zero-digest'),
 # object identifiers
 ('MC_Oid', 'Oid', 'DerLen(n) == IF n < 128', 'DerLen(n) == IF n <= 128', 'der-length-128-short'),
 ('MC_Oid', 'Oid', '(IF i < k THEN 128 ELSE 0)', '(IF i <= k THEN 128 ELSE 0)', 'base128-last-byte-marked'),
 ('MC_Oid', 'Oid', '(NBits(n) + 6) \\div 7', '(NBits(n) + 7) \\div 7', 'base128-not-minimal'),
 ('MC_Oid', 'Oid', 'NMul(<<40>>, cs[1])', 'NMul(<<40>>, NMod(cs[1], <<2>>))', 'first-arc-2-as-0'),
 ('MC_Oid', 'Oid', '\\/ cs[1] \\in {<<>>, <<1>>} /\\ NLt(cs[2], <<40>>)', '\\/ cs[1] \\in {<<>>, <<1>>}', 'second-arc-unbounded'),
 # lives of objects
 ('MC_Life', 'MC_Life', '''Copy(i) == /\\ Go /\\ Len(objs) < MaxObj
           /\\ cells' = cells \\o <<cells[objs[i].sec], cells[objs[i].dat]>>
           /\\ objs' = Append(objs, [sec |-> Len(cells) + 1, dat |-> Len(cells) + 2])''', '''Copy(i) == /\\ Go /\\ Len(objs) < MaxObj
           /\\ cells' = cells \\o <<cells[objs[i].sec]>>
           /\\ objs' = Append(objs, [sec |-> Len(cells) + 1, dat |-> objs[i].dat])''', 'copy-shares-data'),
 ('MC_Life', 'MC_Life', '''/\\ cells' = cells \\o <<cells[buf[b]], <<>>>>
          /\\ objs' = Append(objs, [sec |-> Len(cells) + 1, dat |-> Len(cells) + 2])''', '''/\\ cells' = cells \\o << <<>>>>
          /\\ objs' = Append(objs, [sec |-> buf[b], dat |-> Len(cells) + 1])''', 'object-aliases-key-buffer'),
 ('MC_Life', 'MC_Life', '![objs[i].sec] = Zero, ![objs[i].dat] = <<>>]', '![objs[i].dat] = <<>>]', 'clear-keeps-secret'),
 ('MC_Life', 'MC_Life', "Refused(i) == Go /\\ outs' = <<>> /\\ UNCHANGED <<cells, buf, objs, solo>>", "Refused(i) == Go /\\ outs' = <<>> /\\ cells' = [cells EXCEPT ![objs[i].dat] = Append(@, \"s1\")] /\\ UNCHANGED <<buf, objs, solo>>", 'refused-call-leaves-data'),
 ('MC_Life', 'MC_Life', "Ask(i) == /\\ Go /\\ outs' = <<i, Result(i)>> /\\ UNCHANGED <<cells, buf, objs, solo>>", "Ask(i) == /\\ Go /\\ outs' = <<i, Result(i)>> /\\ cells' = [cells EXCEPT ![objs[i].dat] = Append(@, \"s1\")] /\\ UNCHANGED <<buf, objs, solo>>", 'result-changes-state'),
 # choice of the nonce
 ('MC_Rng', 'MC_Rng', 'Uniform == sch # "modulo" =>', 'Uniform ==', 'nonce-modulo-q'),
 ('MC_Rng', 'MC_Rng', '[] sch = "topbits1" -> (d \\div (2 ^ (Wd - Bits(q)))) + 1', '[] sch = "topbits1" -> IF d = 0 THEN 1 ELSE d', 'nonce-zero-replaced-by-one'),
 ('MC_Rng', 'MC_Rng', 'Usable(k) == k >= 1 /\\ k < q /\\ k \\notin bad', 'Usable(k) == k >= 1 /\\ k < q /\\ (k \\notin bad \\/ n = 2)', 'nonce-unusable-after-retries'),
 # primitives against the standards' examples and the Java overrides
 ('MC_Prims', 'Ciphers', 'MagKey(key, i) == LET j == IF i <= 24 THEN (i - 1) % 8 ELSE 32 - i', 'MagKey(key, i) == LET j == IF i <= 25 THEN (i - 1) % 8 ELSE 32 - i', 'magma-key-order'),
 ('MC_Prims', 'Ciphers', 'KC(i) == KL(Zeros(15) \\o <<i>>)', 'KC(i) == KL(<<i>> \\o Zeros(15))', 'kuznechik-constants'),
 ('MC_Prims', 'Ciphers', 'WAdd(a, b) == LET lo == a[2] + b[2] IN <<(a[1] + b[1] + lo \\div 65536) % 65536', 'WAdd(a, b) == LET lo == a[2] + b[2] IN <<(a[1] + b[1]) % 65536', 'magma-carry'),
 ('MC_Prims', 'Streebog', 'HIVOf(size) == Rep(IF size = 32 THEN 1 ELSE 0, 64)', 'HIVOf(size) == Rep(0, 64)', 'streebog-iv-256'),
 ('MC_Prims', 'Streebog', 'IN <<Append(st[1], t % 256), t \\div 256>>', 'IN <<Append(st[1], t % 256), IF t > 256 THEN 1 ELSE 0>>', 'streebog-addition-carry'),
 ('MC_Prims', 'BigNat', 'IF t < 0 THEN 1 ELSE 0', 'IF t <= 0 THEN 1 ELSE 0', 'bignat-borrow'),
 ('MC_Curve', 'Gost3410', 'x3 == MSub(MSub(MMul(l, l, c.p), P[1], c.p), Q[1], c.p)', 'x3 == MSub(MMul(l, l, c.p), P[1], c.p)', 'curve-addition-x'),
]
def run(m):
    model, mod, old, new, label = m
    d = tempfile.mkdtemp(prefix='specmut.')
    try:
        s = os.path.join(d, 'spec')
        shutil.copytree(os.path.join(V, 'spec'), s)
        p = os.path.join(s, mod + '.tla')
        t = open(p).read()
        if t.count(old) != 1:
            return label, 'TEXT FOUND %d TIMES' % t.count(old), 0
        open(p, 'w').write(t.replace(old, new))
        t0 = time.time()
        cp = ':'.join([os.path.join(V, 'build', 'classes'), T + 'tla2tools.jar', T + 'CommunityModules-deps.jar'])
        r = subprocess.run(['timeout', '600', 'java', '-Xss128m', '-Xmx3g', '-XX:+UseSerialGC', '-cp', cp, 'tlc2.TLC', '-workers', '2',
                            '-noGenerateSpecTE', '-metadir', d + '/m', '-config', s + '/%s.cfg' % model, s + '/%s.tla' % model],
                           cwd=d, capture_output=True, text=True, env=dict(os.environ, TIER='quick'))
        why = [l for l in r.stdout.splitlines() if l.startswith('Error') or 'is violated' in l or 'is false' in l]
        st = {0: 'MISSED', 124: 'TIMEOUT'}.get(r.returncode, 'refuted')
        if any('parse' in l.lower() or 'semantic' in l.lower() for l in why) or r.returncode in (150, 151):
            st = 'DOES NOT PARSE'
        return label, st, time.time() - t0, ' | '.join(why)[:150]
    finally:
        shutil.rmtree(d, ignore_errors=True)
sel = [m for m in M if not sys.argv[1:] or m[4] in sys.argv[1:] or m[0] in sys.argv[1:]]
bad = 0
with cf.ThreadPoolExecutor(int(os.environ.get('W', '3'))) as ex:
    for m, r in zip(sel, ex.map(run, sel)):
        bad += r[1] != 'refuted'
        print('%-10s %-12s %-45s %4ds %s' % (r[1], m[0], r[0], r[2], r[3] if len(r) > 3 else ''), flush=True)
print('%d of %d planted errors refuted' % (len(sel) - bad, len(sel)))
sys.exit(bool(bad))
