"""Scenario families of the relational properties: C16, C17, C18, C20, C21."""
import subprocess
import ec
from scen_sig import *

BADTYPES = (None, 'text', 5, 0, 1.5, [1, 2], (), {}, memoryview(b'abc'), True, 'x' * 32, [0] * 32, (1,) * 32, memoryview(bytes(32)))
BADNAMES = ('@None', '@int', '@bytes', '@tuple', '@true', '@float', '@upper', '', ' ', 'streebog', 'streebog512 ', 'Streebog256', 'kuznechik1', 'magm', 'md5', 'HMAC_GOSTR3411_2012', 'hmac_gostr3411_2012_256')


# ---------------------------------------------------------------- C16
@family
def err(c):
    r, rng = c.r, c.rng
    jobs = [err_hash, err_hmac, err_cipher_new, err_cipher_use, err_mac, err_pbkdf, err_drbg, err_sig_new, err_sig_use, err_oid, err_modes, err_ivs]
    for rep in range(c.q(1, 6)):
        for j, f in enumerate(jobs):
            if (j + rep) % c.nsh == c.shard or c.deep:
                f(c)
    # random combinations of faults
    for _ in range(c.q(200, 3000) // c.nsh + 1):
        r.scenario('combined faults')
        rng.choice(COMBOS)(c)


def around(c, pfx, name, bad, key=None):
    """Refused updates at some point of a history; the digests around them and of a fresh object."""
    r, rng = c.r, c.rng
    kw = {'key': key} if key is not None else {}
    o = r.new(pfx + '.new', name=name, **kw)
    total = b''
    for _ in range(rng.randrange(0, 3)):
        d = c.rb(rng.choice((0, 1, 5, 63, 64, 65, 130)))
        r.call(pfx + '.update', o, data=c.ty(d))
        total += d
    r.call(pfx + '.digest', o)
    r.call(pfx + '.update', o, data=bad)
    r.call(pfx + '.digest', o)
    d = c.rb(rng.choice((0, 1, 63, 64, 65)))
    r.call(pfx + '.update', o, data=c.ty(d))
    total += d
    r.call(pfx + '.update', o, data=bad)
    r.call(pfx + '.digest', o)
    f = r.new(pfx + '.new', name=name, data=total, **kw)
    r.call(pfx + '.digest', f)
    r.free(o, f)


def err_hash(c):
    for name in HN:
        for b in BADTYPES:
            c.r.scenario('hash refused update')
            around(c, 'h', name, b)
            c.r.new('h.new', name=name, data=b)
    c.r.scenario('hash names')
    for n in BADNAMES + MN + ALGS:
        c.r.new('h.new', name=n)
        c.r.new('h.new', name=n, data=b'abc')
        c.r.new('h.new', name=n, data='abc')


def err_hmac(c):
    for name in MN:
        key = c.rb(c.rng.choice((0, 20, 64)))
        for b in BADTYPES:
            c.r.scenario('hmac refused update')
            around(c, 'm', name, b, key=key)
            c.r.new('m.new', name=name, key=key, data=b)
            c.r.new('m.new', name=name, key=b)
        c.r.scenario('hmac keys')
        for n in (65, 66, 100, 128, 1000):
            c.r.new('m.new', name=name, key=c.ty(c.rb(n)))
            c.r.new('m.new', name=name, key=c.ty(c.rb(n)), data=c.rb(3))
        for n in (0, 1, 63, 64):
            c.r.new('m.new', name=name, key=c.ty(c.rb(n)))
    c.r.scenario('hmac names')
    for n in BADNAMES + HN + ALGS:
        c.r.new('m.new', name=n, key=b'k')
        c.r.new('m.new', name=n, key=b'k', data=b'd')


KEYLENS = (0, 1, 8, 15, 16, 24, 31, 33, 48, 63, 64, 65, 128)


def err_cipher_new(c):
    r = c.r
    for a in ALGS:
        for m in SMODE + ('mac',):
            r.scenario('cipher keys %s %s' % (a, m))
            for n in KEYLENS:
                r.new('c.new', alg=a, key=c.ty(c.rb(n)), mode=m)
            for b in BADTYPES:
                r.new('c.new', alg=a, key=b, mode=m)
    for m in SMODE + ('mac',):
        r.scenario('cipher names')
        for n in BADNAMES + HN:
            r.new('c.new', alg=n, key=c.rb(32), mode=m)


def err_modes(c):
    r = c.r
    for a in ALGS:
        r.scenario('mode values')
        for i, v in enumerate((0, 3, 7, 6, 8, 9, 10, 99, -1, 15, 255, 256, 3.5, 'ecb', 'CBC', '1', None, (), b'\1')):
            if v in [int(x) for x in MODES.values() if isinstance(x, int)] and not isinstance(v, (str, bytes, type(None), tuple)):
                continue
            r.call('c.new', r.new_id(), alg=a, key=c.rb(32), mode='bad%d' % i, rawmode=v if not isinstance(v, (bytes, tuple)) else repr(v))
        for m in ('ecb', 'cbc'):
            r.scenario('padding values')
            for p in (0, 3, 4, 255, -1, 7):
                r.new('c.new', alg=a, key=c.rb(32), mode=m, pad=p)
            for p in (1, 2):
                r.new('c.new', alg=a, key=c.rb(32), mode=m, pad=p)


def err_ivs(c):
    r = c.r
    for a in ALGS:
        bs = BSZ[a]
        for m in ('cbc', 'cfb', 'ofb', 'ctr'):
            r.scenario('iv %s %s' % (a, m))
            for n in list(range(0, 4 * bs + 2)) + [64, 65, 100, 128]:
                r.new('c.new', alg=a, key=c.rb(32), mode=m, iv=c.ty(c.rb(n)))
            for b in BADTYPES:
                r.new('c.new', alg=a, key=c.rb(32), mode=m, iv=b)


def err_cipher_use(c):
    r, rng = c.r, c.rng
    for a in ALGS:
        for m in SMODE:
            for b in BADTYPES:
                for op in ('c.enc', 'c.dec'):
                    r.scenario('cipher data')
                    o = cnew(c, a, m, c.rb(32))
                    if rng.random() < 0.5:
                        r.call(op, o, data=c.rb(rng.randrange(3) * BSZ[a]))
                    r.call(op, o, data=b)


def err_mac(c):
    r, rng = c.r, c.rng
    for a in ALGS:
        bs = BSZ[a]
        for b in BADTYPES:
            r.scenario('mac data')
            r.new('c.new', alg=a, key=c.rb(32), mode='mac', data=b)
            o = r.new('c.new', alg=a, key=c.rb(32), mode='mac')
            r.call('c.update', o, data=b)
        r.scenario('mac sizes')
        o = r.new('c.new', alg=a, key=c.rb(32), mode='mac', data=c.rb(rng.randrange(50)))
        for n in (0, -1, -2, -bs, bs + 1, bs + 2, 2 * bs, 64, 1000, -100, 255, 65536, 17 if bs == 8 else 18):
            r.call('c.digest', o, n=n)
            r.call('c.hexdigest', o, n=n)


def err_pbkdf(c):
    r, rng = c.r, c.rng
    for b in BADTYPES:
        r.scenario('pbkdf types')
        r.new('p.new', password=b)
        r.new('p.new', password=c.rb(3), salt=b, counter=1)
        r.new('p.new', password=b, salt=b, counter=1)
    r.scenario('pbkdf sizes')
    for n in (65, 66, 100, 128, 1000):
        r.new('p.new', password=c.ty(c.rb(n)), salt=c.rb(8), counter=1)
    for n in (0, 1, 63, 64):
        r.new('p.new', password=c.ty(c.rb(n)), salt=c.rb(8), counter=1)
    o = r.new('p.new', password=c.rb(8), salt=c.rb(8), counter=1)
    for n in (0, -1, -64, -1000, BIG, -2147483647):
        r.call('p.derive', o, n=n)
        r.call('p.hexderive', o, n=n)


def err_drbg(c):
    r, rng = c.r, c.rng
    for b in BADTYPES:
        r.scenario('drbg types')
        r.new('r.new', rand_size=32, seed=b)
        g = r.new('r.new', rand_size=32, seed=c.rb(48))
        r.call('r.reset', g, seed=b)
        r.call('r.random', g)
    r.scenario('drbg sizes')
    for ss in (32, 40, 48, 62):
        g = r.new('r.new', rand_size=32, seed=c.rb(ss), size_s=ss)
        for n in (1, 8, 31, 32, 33, 40, 47, 48, 49, 61, 62, 63, 64, 100):
            r.new('r.new', rand_size=32, seed=c.ty(c.rb(n)), size_s=ss)
            if n != ss:
                r.call('r.reset', g, seed=c.ty(c.rb(n)))
    r.scenario('drbg zero')
    for ss in (32, 48, 62):
        g = r.new('r.new', rand_size=rng.choice((1, 64, 65)), seed=bytes(ss), size_s=ss)
        r.call('r.random', g)
        r.call('r.random', g)
        r.call('r.reset', g, seed=c.rb(ss))
        r.call('r.random', g)
        r.call('r.clear', g)
        r.call('r.random', g)
        r.call('r.reset', g, seed=bytearray(ss))
        r.call('r.random', g)
    for rs in (64, 100, 64 * 255, 64 * 300, 64 * 100):
        r.scenario('drbg limit')
        g = r.new('r.new', rand_size=rs, seed=c.rb(62), size_s=62)
        for _ in range(255 // ((rs + 63) // 64) + 2):
            r.call('r.random', g)


def err_sig_new(c):
    r, rng = c.r, c.rng
    r.scenario('signature modes')
    for i, m in enumerate((0, 3, -1, 256, 512, 4, 255, 2147483647)):
        for n in (C256[0], C512[0]):
            r.new('s.new', mode=m, curve=n)
    for n in CURVES:
        r.scenario('signature curves')
        w = ec.weierstrass(TAB[n])
        mode = 1 if n in C256 else 2
        r.new('s.new', mode=3 - mode, curve=n)
        for k in ('x', 'y', 'a', 'b'):
            r.new('s.new', mode=mode, par=dict(w, **{k: w[k] ^ (1 << rng.randrange(200))}))
        r.new('s.new', mode=mode, par=dict(w, m=w['p']))
        r.new('s.new', mode=mode, par=dict(w, q=w['q'] >> rng.randrange(5, 100)))
        r.new('s.new', mode=mode, par=dict(w, q=w['q'] << rng.randrange(5, 100)))
    r.scenario('embedding degree')
    for mode, ts in ((1, (1, 2, 31, rng.randrange(3, 31))), (2, (1, 2, rng.randrange(3, 131)))):
        for t in ts:
            q, g = ec.order_pair(rng, t, 256 * mode)
            p = g if g > 1 else g + q
            r.new('s.new', mode=mode, par=fake_curve(rng, p, q))


def err_sig_use(c):
    r, rng = c.r, c.rng
    for n in CURVES:
        mode = 1 if n in C256 else 2
        w = ec.weierstrass(TAB[n])
        size, q = size_of(mode), w['q']
        top = 1 << (8 * size)
        r.scenario('signature arguments %s' % n)
        s = r.new('s.new', mode=mode, curve=n)
        good = dict(key=b2(rng.randrange(1, q), size), digest=c.rb(size), k=b2(rng.randrange(1, q), size))
        lens_ = (0, 1, size - 1, size + 1, 96 - size, 2 * size - 1, 2 * size, 2 * size + 1, 3 * size)
        for f in ('key', 'digest', 'k'):
            for b in BADTYPES:
                r.call('s.sign', s, **dict(good, **{f: b}))
            if f != 'k':
                for ln in lens_:
                    if ln != size:
                        r.call('s.sign', s, **dict(good, **{f: c.ty(c.rb(ln))}))
        for kk in (bytes(1), bytes(size), b2(q, size), b2(q + 1, size), b2(top - 1, size), b'\1' + bytes(size), bytes(2 * size), b2(q, size + 4)):
            r.call('s.sign', s, **dict(good, k=c.ty(kk)))
        for dd in [0, q] + ([2 * q] if 2 * q < top else []) + ([3 * q] if 3 * q < top else []):
            for ty in (bytes, bytearray):
                r.call('s.sign', s, **dict(good, key=ty(b2(dd, size))))
                r.call('s.sign', s, key=ty(b2(dd, size)), digest=c.rb(size))
                r.call('s.pub', s, key=ty(b2(dd, size)))
        for b in BADTYPES:
            r.call('s.pub', s, key=b)
        for ln in lens_:
            if ln != size:
                r.call('s.pub', s, key=c.ty(c.rb(ln)))
        # a given number that yields s = 0
        d, k = rng.randrange(1, q), rng.randrange(1, q)
        R = ec.mul(w, k, (w['x'], w['y']))[0] % q
        e = -R * d * ec.inv(k, q) % q
        r.call('s.sign', s, key=b2(d, size), digest=b2(e, size), k=b2(k, size), expectfault=True)
        Q = ec.mul(w, d, (w['x'], w['y']))
        gv = dict(pub=b2(Q[0], size) + b2(Q[1], size), digest=c.rb(size), sig=c.rb(2 * size))
        for f in ('pub', 'digest', 'sig'):
            for b in BADTYPES:
                r.call('s.verify', s, **dict(gv, **{f: b}))
            for ln in lens_ + (4 * size,):
                if ln != (size if f == 'digest' else 2 * size):
                    r.call('s.verify', s, **dict(gv, **{f: c.ty(c.rb(ln))}))
        # verification of garbage returns
        for _ in range(2):
            r.call('s.verify', s, pub=c.rb(2 * size), digest=c.rb(size), sig=c.rb(2 * size))
            r.call('s.verify', s, pub=bytes(2 * size), digest=bytes(size), sig=bytes(2 * size))


def err_oid(c):
    r = c.r
    for i, s in enumerate(bad_oids(c) + oid_values(c)[:40]):
        if i % 30 == 0:
            r.scenario('identifiers')
        o = r.new('o.new', s=s)
        r.call('o.octet', o)
        r.call('o.digit', o)
        r.free(o)


def pick(c, good, bad, p=0.4):
    return c.rng.choice(bad) if c.rng.random() < p else good


def combo_cipher(c):
    rng = c.rng
    a = pick(c, rng.choice(ALGS), BADNAMES)
    m = pick(c, rng.choice(SMODE + ('mac',)), ('bad', '@None', '@float', '@tuple'), 0.15)
    kw = {'key': pick(c, c.rb(32), BADTYPES + (b'', bytes(31), bytearray(33)))}
    if rng.random() < 0.5 and m != 'mac':
        kw['iv'] = pick(c, c.rb(16 if m != 'ctr' else 4), BADTYPES + (b'', bytes(5), bytearray(17)))
    if rng.random() < 0.5 and m in ('ecb', 'cbc'):
        kw['pad'] = rng.choice((0, 1, 2, 3))
    if m == 'mac' and rng.random() < 0.5:
        kw['data'] = pick(c, c.rb(5), BADTYPES)
    c.r.new('c.new', alg=a, mode=m, **kw)


def combo_hmac(c):
    rng = c.rng
    kw = {'key': pick(c, c.rb(10), BADTYPES + (bytes(65), bytearray(70)))}
    if rng.random() < 0.6:
        kw['data'] = pick(c, c.rb(5), BADTYPES)
    c.r.new('m.new', name=pick(c, rng.choice(MN), BADNAMES), **kw)


def combo_hash(c):
    kw = {}
    if c.rng.random() < 0.7:
        kw['data'] = pick(c, c.rb(5), BADTYPES)
    c.r.new('h.new', name=pick(c, c.rng.choice(HN), BADNAMES), **kw)


def combo_sig(c):
    rng, r = c.rng, c.r
    n = rng.choice(C256)
    w = ec.weierstrass(TAB[n])
    s = r.new('s.new', mode=1, curve=n)
    bad = BADTYPES + (b'', bytes(31), bytearray(33), bytes(65), bytes(32))
    if rng.random() < 0.5:
        kw = {'key': pick(c, b2(rng.randrange(1, w['q']), 32), bad), 'digest': pick(c, c.rb(32), bad[:-1])}
        if rng.random() < 0.8:
            kw['k'] = pick(c, b2(rng.randrange(1, w['q']), 32), BADTYPES + (bytes(32), b'\xff' * 33))
        r.call('s.sign', s, **kw)
    else:
        Q = ec.mul(w, rng.randrange(1, w['q']), (w['x'], w['y']))
        r.call('s.verify', s, pub=pick(c, b2(Q[0], 32) + b2(Q[1], 32), bad), digest=pick(c, c.rb(32), bad[:-1]), sig=pick(c, c.rb(64), bad))


def combo_pbkdf(c):
    kw = {}
    if c.rng.random() < 0.7:
        kw['salt'] = pick(c, c.rb(8), BADTYPES)
    o = c.r.new('p.new', password=pick(c, c.rb(9), BADTYPES + (bytes(65), bytearray(66))), counter=1, **kw)
    if o in c.r.objs:
        c.r.call('p.derive', o, n=pick(c, 10, (0, -1, BIG)))


COMBOS = (combo_cipher, combo_hmac, combo_hash, combo_sig, combo_pbkdf)


# ---------------------------------------------------------------- C17
class Script:
    """A list of calls, run on one object (and its copies) call by call."""

    def __init__(self, label, steps):
        self.label, self.steps = label, steps

    def start(self, c, wrap, drop=False):
        self_objs = []
        left = {}
        for j, st in enumerate(self.steps):
            left[st[1].get('on', 0)] = j
        for j, st in enumerate(self.steps):
            op, kw = st
            a = {k: (wrap(k, v) if isinstance(v, (bytes, bytearray)) else v) for k, v in kw.items()}
            tgt = a.pop('on', 0)
            if op.endswith('.new'):
                self_objs.append(c.r.new(op, **a))
            elif op.endswith('.copy'):
                to = c.r.new_id()
                c.r.call(op, self_objs[tgt], to=to)
                self_objs.append(to)
            else:
                c.r.call(op, self_objs[tgt], **a)
            if drop:
                # objects go as soon as they are not needed any more, originals before their copies too
                for t in [t for t in left if left[t] <= j and t < len(self_objs)]:
                    c.r.free(self_objs[t])
                    del left[t]
            yield


def script_hash(c, key=None):
    rng = c.rng
    pfx = 'h' if key is None else 'm'
    st = [(pfx + '.new', dict(name=rng.choice(HN if key is None else MN), **({} if key is None else {'key': key}), **({'data': c.rb(rng.choice((3, 64, 70)))} if rng.random() < 0.6 else {})))]
    n = 1
    for _ in range(rng.randrange(3, 9)):
        op = rng.choice(('.update', '.update', '.digest', '.hexdigest', '.copy', '.reset', '.update') + (('.clear',) if key is not None else ()))
        d = {'on': rng.randrange(n)}
        if op == '.update':
            d['data'] = c.rb(rng.choice((0, 1, 7, 63, 64, 65, 100, 128)))
        if op == '.copy':
            if n > 2:
                continue
            n += 1
        st.append((pfx + op, d))
    for j in range(n):
        st.append((pfx + '.digest', {'on': j}))
    return Script('hash' if key is None else 'hmac', st)


def script_cipher(c, key, mode=None):
    rng = c.rng
    a, m = rng.choice(ALGS), mode or rng.choice(SMODE)
    kw = dict(alg=a, key=key, mode=m)
    iv = rng.choice(ivs(c, a, m))
    if iv is not None:
        kw['iv'] = iv
    if m in ('ecb', 'cbc') and rng.random() < 0.6:
        kw['pad'] = rng.choice((1, 2))
    st = [('c.new', kw)]
    for _ in range(rng.randrange(2, 7)):
        op = rng.choice(('c.enc', 'c.dec', 'c.enc', 'prop', 'c.clear' if rng.random() < 0.15 else 'c.dec'))
        if op == 'prop':
            if m != 'ecb':
                st.append(('c.counter' if m == 'ctr' else 'c.iv', {}))
        elif op == 'c.clear':
            st.append((op, {}))
        else:
            n = rng.choice((0, 1, 2, 3)) * BSZ[a]
            if op == 'c.enc' or m not in ('ecb', 'cbc'):
                n += rng.choice((0, 0, 3))
            st.append((op, {'data': c.rb(n)}))
    if m != 'ecb':
        st.append(('c.counter' if m == 'ctr' else 'c.iv', {}))
        st.append(('c.enc', {'data': c.rb(20)}))
        st.append(('c.counter' if m == 'ctr' else 'c.iv', {}))
    return Script('cipher ' + m, st)


def script_mac(c, key):
    rng = c.rng
    a = rng.choice(ALGS)
    st = [('c.new', dict(alg=a, key=key, mode='mac', **({'data': c.rb(rng.randrange(40))} if rng.random() < 0.5 else {})))]
    for _ in range(rng.randrange(2, 7)):
        op = rng.choice(('c.update', 'c.update', 'c.digest', 'c.hexdigest'))
        st.append((op, {'data': c.rb(rng.choice((0, 1, 7, 8, 9, 15, 16, 17, 40)))} if op == 'c.update' else {'n': rng.randrange(1, BSZ[a] + 1)}))
    st.append(('c.digest', {'n': BSZ[a]}))
    return Script('mac', st)


def script_block(c, key):
    a = c.rng.choice(ALGS)
    st = [('b.new', dict(alg=a, key=key))]
    for _ in range(c.rng.randrange(2, 7)):
        st.append((c.rng.choice(('b.enc', 'b.dec')), {'data': c.rb(BSZ[a])}))
    return Script('block', st)


def script_pbkdf(c, pw):
    rng = c.rng
    st = [('p.new', dict(password=pw, salt=c.rb(rng.choice((1, 8, 32))), counter=rng.choice((1, 2, 3))))]
    for _ in range(rng.randrange(2, 5)):
        op = rng.choice(('p.derive', 'p.hexderive', 'p.salt'))
        st.append((op, {} if op == 'p.salt' else {'n': rng.choice((1, 32, 64, 65, 100))}))
    st.append(('p.derive', {'n': 40}))
    return Script('pbkdf', st)


def script_drbg(c, seed):
    rng = c.rng
    ss = len(seed)
    st = [('r.new', dict(rand_size=rng.choice((1, 32, 64, 65, 100)), seed=seed, size_s=ss))]
    for _ in range(rng.randrange(2, 6)):
        op = rng.choice(('r.random', 'r.random', 'r.random', 'r.reset'))
        st.append((op, {'seed': rng.choice((seed, c.rb(ss)))} if op == 'r.reset' else {}))
    st.append(('r.random', {}))
    return Script('drbg', st)


def script_sig(c, n=None):
    rng = c.rng
    n = n or rng.choice(C256)
    mode = 1 if n in C256 else 2
    w = ec.weierstrass(TAB[n])
    size, q = size_of(mode), w['q']
    d = rng.randrange(1, q)
    key, dg = b2(d, size), c.rb(size)
    Q = ec.mul(w, d, (w['x'], w['y']))
    pub = b2(Q[0], size) + b2(Q[1], size)
    k = rng.randrange(1, q)
    R = ec.mul(w, k, (w['x'], w['y']))[0] % q
    S = (R * d + k * (int.from_bytes(dg, 'big') % q or 1)) % q
    st = [('s.new', dict(mode=mode, curve=n))]
    for op in rng.sample(('sign', 'pub', 'verify', 'sign2', 'badsign'), 3):
        if op == 'sign':
            st.append(('s.sign', dict(key=key, digest=dg, k=b2(k, size))))
        elif op == 'sign2':
            st.append(('s.sign', dict(key=key, digest=c.rb(size), k=b2(rng.randrange(1, q), size))))
        elif op == 'badsign':
            st.append(('s.sign', dict(key=key, digest=dg, k=b2(q, size))))
            st.append(('s.sign', dict(key=key, digest=dg[:-1], k=b2(q, size))))
        elif op == 'pub':
            st.append(('s.pub', dict(key=key)))
        else:
            st.append(('s.verify', dict(pub=pub, digest=dg, sig=b2(R, size) + b2(S, size))))
    return Script('sig', st)


def script_oid(c):
    rng = c.rng
    s = rng.choice(('1.2.643.7.1.1.2.%d' % rng.randrange(1, 4), '1.2.643.7.1.2.1.1.%d' % rng.randrange(4), '2.%d.%d' % (rng.getrandbits(60), rng.getrandbits(90)),
                    '.'.join(['1', '3'] + [str(rng.getrandbits(rng.randrange(1, 70))) for _ in range(rng.randrange(1, 30))]), '1.40', '1.x'))
    return Script('oid', [('o.new', {'s': s})] + [(rng.choice(('o.text', 'o.name', 'o.digit', 'o.octet')), {}) for _ in range(rng.randrange(3, 8))])


def listed(c, steps, wrap=bytes):
    """The steps as a list of calls (op, id, arguments)."""
    objs, out = [], []
    for op, kw in steps:
        a = {k: (wrap(v) if isinstance(v, (bytes, bytearray)) else v) for k, v in kw.items()}
        tgt = a.pop('on', 0)
        if op.endswith('.new'):
            objs.append(c.r.new_id())
            out.append((op, objs[-1], a))
        elif op.endswith('.copy'):
            objs.append(c.r.new_id())
            out.append((op, objs[tgt], {'to': objs[-1]}))
        else:
            out.append((op, objs[tgt], a))
    return out, objs


def interleave(c, runs):
    live = list(runs)
    while live:
        g = c.rng.choice(live)
        try:
            next(g)
        except StopIteration:
            live.remove(g)


@family
def iso(c):
    r, rng = c.r, c.rng
    hist = c.mine(c.hist['hash'])[::c.q(12, 3)]
    plain = lambda k, v: bytes(v)  # noqa: E731
    for rep in range(c.q(40, 400)):
        r.scenario('interleaved')
        key = c.rb(32)
        seed = c.rb(rng.choice((32, 48)))
        makers = [lambda: script_hash(c), lambda: script_hash(c, key[:rng.choice((0, 5, 32))]), lambda: script_hash(c, key + key), lambda: script_cipher(c, key), lambda: script_cipher(c, key),
                  lambda: script_mac(c, key), lambda: script_block(c, key), lambda: script_pbkdf(c, key), lambda: script_drbg(c, seed), lambda: script_oid(c)]
        if rep % 3 == 0:
            makers.append(lambda: script_sig(c))
        if c.deep and rep % 40 == 0:
            makers.append(lambda: script_sig(c, rng.choice(C512)))
        scripts = [m() for m in rng.sample(makers, rng.randrange(2, 5))]
        if rng.random() < 0.4:
            scripts.append(scripts[0])
        # alone, with bytes
        r.mutate = False
        for s in scripts:
            for _ in s.start(c, plain):
                pass
        # in a process in which nothing else has happened
        if rep % 2 == 0:
            for s in scripts:
                r.pristine(listed(c, s.steps)[0])
        # interleaved, with bytearrays that are changed after every call; results changed too
        r.mutate = True
        interleave(c, [s.start(c, lambda k, v: bytearray(v)) for s in scripts])
        # interleaved, with one buffer object for equal arguments, never changed by us; objects are dropped in between
        r.mutate = False
        pool = {}
        drop = rep % 2 == 0

        def shared(k, v):
            return pool.setdefault(bytes(v), bytearray(v))
        interleave(c, [s.start(c, shared, drop and rng.random() < 0.7) for s in scripts])
        r.mutate = False
        if rep % 4 == 1:
            # in threads of their own, two of each
            r.together([s.start(c, lambda k, v: bytearray(v)) for s in scripts + scripts[::-1]])
    # threads that use objects of one kind, made from different secrets
    kinds = [lambda: script_hash(c), lambda: script_hash(c, c.rb(32)), lambda: script_cipher(c, c.rb(32)), lambda: script_mac(c, c.rb(32)), lambda: script_block(c, c.rb(32)),
             lambda: script_pbkdf(c, c.rb(16)), lambda: script_drbg(c, c.rb(32)), lambda: script_sig(c), lambda: script_oid(c)]
    for rep in range(c.q(27, 180)):
        r.scenario('threads of one kind')
        kind = kinds[(rep + c.shard) % len(kinds)]
        scripts = [kind() for _ in range(3)]
        for s in scripts:
            for _ in s.start(c, plain):
                pass
        for _ in range(1 if kind is kinds[7] else c.q(8, 20)):
            r.together([s.start(c, lambda k, v: bytearray(v)) for s in scripts])
    for h in hist:
        h = [x for x in h if x != 'bad']
        r.scenario('history twice')
        st = c.rng.getstate()
        for key in (None, c.rb(rng.choice((5, 64)))):
            for mut in (False, True):
                c.rng.setstate(st)
                r.mutate = mut
                run_hash_history(c, h, HN[0] if key is None else MN[0], r, 'h' if key is None else 'm', key=key, oneshots=False)
        r.mutate = False
    # each kind of object, alone, many
    kinds = [lambda k: script_hash(c), lambda k: script_hash(c, k), lambda k: script_hash(c, k + k)] + \
            [(lambda m: lambda k: script_cipher(c, k, m))(m) for m in SMODE for _ in range(2)] + \
            [lambda k: script_mac(c, k), lambda k: script_block(c, k), lambda k: script_pbkdf(c, k), lambda k: script_drbg(c, k), lambda k: script_sig(c)]
    for rep in range(c.q(2, 20)):
        for j, mk in enumerate(kinds):
            if j % c.nsh != c.shard and not c.deep:
                continue
            r.scenario('single object')
            s = mk(c.rb(32))
            r.mutate = False
            for _ in s.start(c, plain):
                pass
            r.mutate = True
            for _ in s.start(c, lambda k, v: bytearray(v)):
                pass
            r.mutate = False
            pool2 = {}
            for _ in s.start(c, lambda k, v: pool2.setdefault(bytes(v), bytearray(v))):
                pass
    # equal arguments on objects made by copying at each point; writes into one after copying
    for pfx, names in (('h', HN), ('m', MN)):
        for n in c.mine(range(0, 132, c.q(5, 1))):
            r.scenario('copies')
            name = rng.choice(names)
            kw = {} if pfx == 'h' else {'key': c.rb(20)}
            a, b1, b2_ = c.rb(n), c.rb(rng.choice((1, 64, 70))), c.rb(rng.choice((1, 64, 70)))
            o = r.new(pfx + '.new', name=name, **kw)
            r.call(pfx + '.update', o, data=a)
            t = r.new_id()
            r.call(pfx + '.copy', o, to=t)
            r.call(pfx + '.update', t, data=b1)
            r.call(pfx + '.update', o, data=b2_)
            r.call(pfx + '.digest', o)
            r.call(pfx + '.digest', t)
            for tail, orig in ((b1, None), (b2_, None)):
                o3 = r.new(pfx + '.new', name=name, **kw)
                r.call(pfx + '.update', o3, data=a)
                if tail is b1:
                    # same history as the copy
                    t3 = r.new_id()
                    r.call(pfx + '.copy', o3, to=t3)
                    o3 = t3
                r.call(pfx + '.update', o3, data=tail)
                r.call(pfx + '.digest', o3)


# ---------------------------------------------------------------- C18
def secret_pairs(c, n):
    a = bytes([c.rng.randrange(1, 256)]) + c.rb(n - 1)
    x = bytearray(a)
    x[c.rng.randrange(n)] ^= 1 << c.rng.randrange(8)
    return [a, c.rb(n), bytes(x), bytes(n) if c.rng.random() < 0.3 else c.rb(n)]


@family
def clear(c):
    r, rng = c.r, c.rng

    def twins(secrets, make, before, after):
        """make(secret, role) -> id; before / after: lists of (op, kw)."""
        # the first secret also lives on, uncleared
        o = make(secrets[0], 'live')
        for op, kw in before:
            r.call(op, o, **kw, cmp='b')
        for j, (op, kw) in enumerate(after):
            if not op.endswith('.clear'):
                r.call(op, o, **kw, cmp=str(j))
        for s in secrets:
            o = make(s, 'cleared')
            for op, kw in before:
                r.call(op, o, **kw, cmp='x')
            r.call(before_clear, o)
            for j, (op, kw) in enumerate(after):
                r.call(op, o, **kw, cmp=str(j))

    def kwt(**a):
        return {k: (c.ty(v) if isinstance(v, bytes) else v) for k, v in a.items()}
    # ciphers
    for rep in range(c.q(2, 20)):
        for a in ALGS:
            bs = BSZ[a]
            for m in SMODE:
                for nbefore in (0, 1, 2):
                    if (ALGS.index(a) * 5 + SMODE.index(m) + nbefore + rep) % c.nsh != c.shard and not c.deep:
                        continue
                    r.scenario('clear %s %s %d' % (a, m, nbefore))
                    iv = rng.choice(ivs(c, a, m))
                    pad = rng.choice((None, 1, 2)) if m in ('ecb', 'cbc') else None
                    before = []
                    for _ in range(nbefore):
                        op = 'c.dec' if m in ('cbc', 'cfb') and rng.random() < 0.8 else rng.choice(('c.enc', 'c.dec'))
                        before.append((op, {'data': c.rb(bs * rng.randrange(0, 3))}))
                    after = []
                    for _ in range(rng.randrange(2, 6)):
                        op = rng.choice(('c.enc', 'c.dec', 'c.enc', 'prop', 'c.clear'))
                        if op == 'prop':
                            if m == 'ctr':
                                after.append(('c.counter', {}))
                            elif m != 'ecb':
                                after.append(('c.iv', {}))
                        elif op == 'c.clear':
                            after.append((op, {}))
                        else:
                            after.append((op, {'data': c.rb(bs * rng.randrange(1, 4))}))
                    after += [('c.enc', {'data': c.rb(2 * bs)}), ('c.dec', {'data': c.rb(2 * bs)})]
                    before_clear = 'c.clear'

                    def make(s, role, a=a, m=m, iv=iv, pad=pad):
                        kw = {}
                        if iv is not None:
                            kw['iv'] = iv
                        if pad:
                            kw['pad'] = pad
                        return r.new('c.new', alg=a, key=c.ty(s), mode=m, role=role, **kw)
                    twins(secret_pairs(c, 32), make, before, after)
    for rep in range(c.q(1, 6)):
        for a in ALGS:
            bs = BSZ[a]
            # blocks
            r.scenario('clear block')
            before_clear = 'b.clear'
            before = [(rng.choice(('b.enc', 'b.dec')), {'data': c.rb(bs)}) for _ in range(rng.randrange(3))]
            after = [('b.enc', {'data': c.rb(bs)}), ('b.clear', {}), ('b.dec', {'data': c.rb(bs)})]
            twins(secret_pairs(c, 32), lambda s, role: r.new('b.new', alg=a, key=c.ty(s), role=role), before, after)
            # MAC: cleared with nothing, whole blocks, a partial block, a digest taken
            for n in c.mine(range(0, 3 * bs + 1, c.q(3, 1))) + [rng.randrange(3 * bs)]:
                r.scenario('clear mac %d' % n)
                before_clear = 'c.clear'
                before = [('c.update', {'data': c.rb(n)})] if n else []
                if rng.random() < 0.5:
                    before.append(('c.digest', {'n': bs}))
                if rng.random() < 0.3:
                    before.append(('c.update', {'data': c.rb(rng.choice((1, bs, bs + 1)))}))
                after = rng.sample([('c.digest', {'n': bs}), ('c.update', {'data': c.rb(5)}), ('c.digest', {'n': bs}), ('c.clear', {}), ('c.update', {'data': c.rb(bs)}), ('c.hexdigest', {'n': bs}),
                                    ('c.update', {'data': c.rb(2 * bs + 3)})], 5) + [('c.digest', {'n': bs})]
                if rng.random() < 0.3:
                    after.insert(0, ('c.digest', {'n': bs}))
                twins(secret_pairs(c, 32), lambda s, role: r.new('c.new', alg=a, key=c.ty(s), mode='mac', role=role), before, after)
                # data given to the constructor
                d0 = c.rb(n)
                twins(secret_pairs(c, 32), lambda s, role: r.new('c.new', alg=a, key=c.ty(s), mode='mac', data=d0, role=role), before[1:], after)
        # HMAC
        for name in MN:
            for n in c.mine((0, 1, 63, 64, 65, 128, 130)):
                r.scenario('clear hmac')
                before_clear = 'm.clear'
                before = [('m.update', {'data': c.rb(n)})] if n else []
                if rng.random() < 0.5:
                    before.append(('m.digest', {}))
                after = rng.sample([('m.digest', {}), ('m.update', {'data': c.rb(5)}), ('m.reset', {}), ('m.update', {'data': c.rb(64)}), ('m.digest', {}), ('m.clear', {}), ('m.hexdigest', {})], 5) + [('m.digest', {}), ('m.reset', {}), ('m.digest', {})]
                kl = rng.choice((1, 20, 32, 63, 64))
                twins(secret_pairs(c, kl), lambda s, role: r.new('m.new', name=name, key=c.ty(s), role=role), before, after)
                d0 = c.rb(rng.choice((1, 64, 70)))
                twins(secret_pairs(c, kl), lambda s, role: r.new('m.new', name=name, key=c.ty(s), data=d0, role=role), before, after)
        # key derivation
        for it in c.mine((1, 2, 3)):
            r.scenario('clear pbkdf')
            before_clear = 'p.clear'
            salt = c.rb(8)
            before = [('p.derive', {'n': rng.choice((10, 64, 65, 130))}) for _ in range(rng.randrange(3))] + ([('p.salt', {})] if rng.random() < 0.5 else [])
            after = [('p.derive', {'n': 64}), ('p.salt', {}), ('p.clear', {}), ('p.derive', {'n': rng.choice((10, 64, 100))}), ('p.hexderive', {'n': 64}), ('p.derive', {'n': 30}), ('p.salt', {})]
            twins(secret_pairs(c, rng.choice((1, 8, 64))), lambda s, role: r.new('p.new', password=c.ty(s), salt=salt, counter=it, role=role), before, after)
        # generator
        for ss in c.mine((32, 40, 48, 62)):
            for nb in (0, 1, 2):
                r.scenario('clear drbg')
                before_clear = 'r.clear'
                rs = rng.choice((32, 64, 65, 128))
                before = [('r.random', {})] * nb
                after = [('r.random', {}), ('r.random', {}), ('r.clear', {}), ('r.random', {})]
                twins(secret_pairs(c, ss), lambda s, role: r.new('r.new', rand_size=rs, seed=c.ty(s), size_s=ss, role=role), before, after)
                # reset without a usable seed, and with one
                after = [('r.reset', {'seed': bytes(ss)}), ('r.random', {})]
                twins(secret_pairs(c, ss), lambda s, role: r.new('r.new', rand_size=rs, seed=c.ty(s), size_s=ss, role=role), before, after)


@family
def clear_iso(c):
    """Clearing an object changes no other one: same argument buffers, copies, same key."""
    r, rng = c.r, c.rng
    for rep in range(c.q(60, 600) // c.nsh + 2):
        r.scenario('clear and others')
        key = c.rb(32)
        makers = [lambda: script_hash(c, key), lambda: script_hash(c, key + key), lambda: script_cipher(c, key), lambda: script_mac(c, key), lambda: script_block(c, key),
                  lambda: script_pbkdf(c, key), lambda: script_drbg(c, key)]
        scripts = [m() for m in rng.sample(makers, 3)]
        for s in scripts:
            for _ in s.start(c, lambda k, v: bytes(v)):
                pass
        pool = {}
        sh = lambda k, v: pool.setdefault(bytes(v), bytearray(v))  # noqa: E731
        # others with the same buffers that are cleared in between
        vict = []
        for s in scripts:
            op = s.steps[0][0]
            cl = {'m.new': 'm.clear', 'c.new': 'c.clear', 'b.new': 'b.clear', 'p.new': 'p.clear', 'r.new': 'r.clear'}[op]
            vict.append(Script('victim', [s.steps[0], (cl, {}), (cl, {})]))
        interleave(c, [s.start(c, sh) for s in scripts + vict])
        # an object, cleared, then a new one from the same buffers
        for s in scripts:
            for g in (vict[scripts.index(s)].start(c, sh), s.start(c, sh)):
                for _ in g:
                    pass
    for rep in range(c.q(4, 40)):
        r.scenario('copies of a cleared HMAC')
        name, key, d, e = rng.choice(MN), c.rb(rng.choice((5, 32, 64))), c.rb(rng.choice((0, 3, 64, 100))), c.rb(rng.choice((1, 64)))
        ends = []
        for clr in (False, True, True):
            o = r.new('m.new', name=name, key=c.ty(key))
            r.call('m.update', o, data=d)
            t = r.new_id()
            r.call('m.copy', o, to=t)
            u = r.new_id()
            r.call('m.copy', o, to=u)
            if clr:
                r.call('m.clear', o)
                r.call('m.clear', o)
            for x in (t, u):
                r.call('m.update', x, data=e)
                r.call('m.digest', x)
                r.call('m.reset', x)
                r.call('m.digest', x)


# ---------------------------------------------------------------- C20
CHILD = """
import sys, json, os
sys.dont_write_bytecode = True
sys.path.insert(0, %r)
from gostcrypto import gostsignature, gostpbkdf, gostrandom
S = gostsignature.new(1, gostsignature.CURVES_R_1323565_1_024_2019[%r])
key, dig = bytes.fromhex(sys.argv[1]), bytes.fromhex(sys.argv[2])
def values():
    p = gostpbkdf.new(b'password', counter=1)
    g = gostrandom.new(64)
    os.write(1, (json.dumps([bytes(S.sign(key, dig)).hex(), bytes(p.salt).hex(), bytes(g.random()).hex()]) + chr(10)).encode())
values()
# children that share all the state of their parent
for _ in range(int(sys.argv[3])):
    pid = os.fork()
    if pid == 0:
        values()
        os._exit(0)
    os.waitpid(pid, 0)
values()
"""


@family
def fresh(c):
    r, rng = c.r, c.rng

    def one(s, mode, q, **kw):
        size = size_of(mode)
        return r.call('s.sign', s, key=c.ty(b2(rng.randrange(1, q), size)), digest=c.ty(c.rb(size)), **kw)
    for ci, n in enumerate(CURVES):
        if ci % c.nsh != c.shard and not c.deep:
            continue
        mode = 1 if n in C256 else 2
        w = ec.weierstrass(TAB[n])
        q, size = w['q'], size_of(mode)
        top = 1 << (8 * size)
        r.scenario('nonces ' + n)
        s = r.new('s.new', mode=mode, curve=n)
        key, dg = b2(rng.randrange(1, q), size), c.rb(size)
        for j in range(c.q(64, 150) if mode == 1 else 64):
            if j % 3 == 0:
                r.call('s.sign', s, key=key, digest=dg)
            elif j % 3 == 1:
                r.call('s.sign', s, key=key, digest=c.rb(size))
            else:
                s2 = r.new('s.new', mode=mode, curve=n)
                r.call('s.sign', s2, key=key, digest=dg, **({'k': b''} if j % 2 else {}))
                r.free(s2)
        # the top bit of q is rarely set below q when q is just over a power of two
        r.note('check.nonces', n=size, top=q.bit_length() - 8 * (size - 1) - (q >> (q.bit_length() - 4) < 12))
        # the source delivers values outside the range
        for vals in ([0], [q], [q + 1], [top - 1], [0, 0, q, top - 1, q + 5], [rng.randrange(q, top) for _ in range(20)], [1], [q - 1], [2], [q - 2], [q, 1], [0, q - 1], [3 << 200]):
            SOURCE.queue = [b2(v % top, size) for v in vals]
            one(s, mode, q, scripted=True)
            SOURCE.queue = []
        # a number for which s = 0 is drawn again
        for _ in range(2):
            d, k = rng.randrange(1, q), rng.randrange(1, q)
            R = ec.mul(w, k, (w['x'], w['y']))[0] % q
            e = -R * d * ec.inv(k, q) % q
            SOURCE.queue = [b2(k, size)] * rng.randrange(1, 3)
            r.call('s.sign', s, key=b2(d, size), digest=b2(e, size), scripted=True)
            SOURCE.queue = []
    for _ in range(c.q(1, 6)):
        r.scenario('salts')
        for j in range(64):
            p = r.new('p.new', password=b'pass', counter=1, **({} if j % 2 else {'salt': b''}))
            r.call('p.salt', p)
            if j % 8 == 0:
                r.call('p.derive', p, n=10)
                r.call('p.salt', p)
            r.free(p)
        r.note('check.bits', set='saltbits', n=32)
    for ss in c.mine([32, 40, 48, 62, 61, 33, 47, 50]):
        r.scenario('seeds %d' % ss)
        kw = {} if ss == 48 else {'size_s': ss}
        gens = []
        for j in range(c.q(16, 60)):
            g = r.new('r.new', rand_size=rng.choice((64, 64, 100, 128)), **kw, **({'seed': b''} if j % 4 == 3 else {}))
            r.call('r.random', g)
            if j % 3 == 0:
                r.call('r.reset', g)
                r.call('r.random', g)
            gens.append(g)
        for g in gens[:6]:
            r.call('r.reset', g)
            r.call('r.random', g)
            r.call('r.random', g)
    if c.shard == c.nsh - 1 or c.deep and c.shard == 0:
        # separate processes with the real system source, same arguments
        r.scenario('processes')
        n = C256[0]
        s = r.new('s.new', mode=1, curve=n)
        key, dg = b2(rng.randrange(1, TAB[n]['q']), 32), c.rb(32)
        cmd = [sys.executable, '-c', CHILD % (REPO, n), key.hex(), dg.hex(), str(c.q(2, 4))]
        ps = [subprocess.Popen(cmd, stdout=subprocess.PIPE) for _ in range(c.q(6, 24))]
        for p in ps:
            out = p.communicate()[0]
            if p.returncode:
                continue
            for line in out.splitlines():
                sg, salt, rnd = [list(bytes.fromhex(x)) for x in json.loads(line)]
                r.emit({'op': 's.sign', 'id': s, 'key': enc(key), 'digest': enc(dg), 'ext': True, 'draws': [], 'out': {'t': 'bytes', 'v': sg}})
                i = r.new_id()
                r.emit({'op': 'p.new', 'id': i, 'ext': True, 'draws': [], 'out': {'t': 'obj'}})
                r.emit({'op': 'p.salt', 'id': i, 'ext': True, 'out': {'t': 'bytes', 'v': salt}})
                i = r.new_id()
                r.emit({'op': 'r.new', 'id': i, 'ext': True, 'rand_size': 64, 'draws': [], 'out': {'t': 'obj'}})
                r.emit({'op': 'r.random', 'id': i, 'ext': True, 'out': {'t': 'bytes', 'v': rnd}})


# ---------------------------------------------------------------- C21
@family
def attr(c):
    r, rng = c.r, c.rng

    def attrs(o, names):
        for a in rng.sample(names, len(names)):
            r.call('attr', o, attr=a)
    for i, h in enumerate(c.mine(c.hist['hash'])[::c.q(6, 2)]):
        for pfx, names in (('h', HN), ('m', MN)):
            r.scenario('attributes ' + pfx)
            kw = {} if pfx == 'h' else {'key': c.rb(rng.choice((0, 20, 64)))}
            objs = []
            cur = 0
            for op in h:
                if op.startswith('new'):
                    d = c.rb(int(op[3:] or 0))
                    objs.append(r.new(pfx + '.new', name=names[i % 2], **kw, **({'data': d} if op != 'new' else {})))
                elif op[0] == 'u':
                    r.call(pfx + '.update', objs[cur], data=c.ty(c.rb(ULEN[op])))
                elif op in ('digest', 'hexdigest'):
                    pass
                elif op == 'copy':
                    t = r.new_id()
                    r.call(pfx + '.copy', objs[cur], to=t)
                    objs.append(t)
                elif op == 'switch':
                    cur = (cur + 1) % len(objs)
                elif op == 'reset':
                    r.call(pfx + '.reset', objs[cur])
                if rng.random() < 0.5:
                    attrs(objs[cur], ['digest_size', 'block_size', 'name', 'oid'])
                for x in rng.sample(('.digest', '.hexdigest'), 2):
                    r.call(pfx + x, objs[cur])
            if pfx == 'm' and rng.random() < 0.4:
                r.call('m.clear', objs[cur])
            for o in objs:
                attrs(o, ['digest_size', 'block_size', 'name', 'oid'])
                for x in ('.hexdigest', '.digest'):
                    r.call(pfx + x, o)
    # digests whose bytes have leading zero digits
    r.scenario('hex forms')
    for j in range(c.q(40, 300)):
        o = r.new('h.new', name=HN[j % 2], data=c.rb(j % 70))
        r.call('h.digest', o)
        r.call('h.hexdigest', o)
        r.free(o)
    for a in ALGS:
        bs = BSZ[a]
        for m in SMODE + ('mac',):
            r.scenario('attributes %s %s' % (a, m))
            o = r.new('c.new', alg=a, key=c.rb(32), mode=m)
            attrs(o, ['block_size', 'oid'])
            if m == 'mac':
                for _ in range(3):
                    r.call('c.update', o, data=c.rb(rng.randrange(40)))
                    for n in rng.sample(range(1, bs + 1), 4) + [bs]:
                        for x in rng.sample(('c.digest', 'c.hexdigest'), 2):
                            r.call(x, o, n=n)
            else:
                r.call('c.enc', o, data=c.rb(3 * bs))
                r.call('c.dec', o, data=c.rb(2 * bs))
            attrs(o, ['block_size', 'oid'])
            if rng.random() < 0.5:
                r.call('c.clear', o)
                attrs(o, ['block_size', 'oid'])
        r.scenario('attributes block')
        o = r.new('b.new', alg=a, key=c.rb(32))
        for _ in range(3):
            attrs(o, ['block_size', 'key_size'])
            r.call('b.enc', o, data=c.rb(bs))
            r.call('b.dec', o, data=c.rb(bs))
    for n in CURVES:
        if rng.random() < c.q(0.3, 1):
            mode = 1 if n in C256 else 2
            size = size_of(mode)
            r.scenario('attributes signature')
            s = r.new('s.new', mode=mode, curve=n)
            r.call('attr', s, attr='oid')
            r.call('s.sign', s, key=c.rb(size), digest=c.rb(size), k=b'\1' * (size - 4))
            r.call('s.sign', s, key=c.rb(size), digest=c.rb(size))
            r.call('s.pub', s, key=c.rb(size))
            r.call('s.pub', s, key=bytes(size - 1) + b'\1')
            r.call('attr', s, attr='oid')
    for n in c.mine((1, 2, 31, 32, 63, 64, 65, 100, 127, 128, 129, 500)):
        r.scenario('sizes')
        p = r.new('p.new', password=c.rb(7), salt=c.rb(5), counter=1)
        for x in rng.sample(('p.derive', 'p.hexderive'), 2):
            r.call(x, p, n=n)
        r.call('p.derive', p, n=10)
        r.call('p.hexderive', p, n=10)
        g = r.new('r.new', rand_size=n, seed=c.rb(48))
        r.call('r.random', g)
        r.call('r.random', g)
