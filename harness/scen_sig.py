"""Scenario families of the signature module (C12 - C15) and of object identifiers (C19)."""
import ec
from scen import *

TAB = gostsignature.CURVES_R_1323565_1_024_2019
# Test curve of GOST R 34.10-2012, Annex A.1
GOST_EX = {'p': 0x8000000000000000000000000000000000000000000000000000000000000431, 'a': 7,
           'b': 0x5FBFF498AA938CE739B8E022FBAFEF40563F6E6A3472FC2A514C0CE9DAE23B7E,
           'm': 0x8000000000000000000000000000000150FE8A1892976154C59CFC193ACCF5B3,
           'q': 0x8000000000000000000000000000000150FE8A1892976154C59CFC193ACCF5B3,
           'x': 2, 'y': 0x08E2A8A0E65147D4BD6316030E16D19C85C97F0A9CA267122B96ABBCEA7E8FC8}
TWIST = [n for n in CURVES if TAB[n].get('e')]


def size_of(mode):
    return 32 * mode


def edwards_only(par):
    return {k: par[k] for k in ('p', 'm', 'q', 'e', 'd', 'u', 'v')}


def curve_choices(c):
    """(mode, keyword arguments of s.new, Weierstrass parameters)"""
    out = []
    for n in CURVES:
        out.append((1 if n in C256 else 2, {'curve': n}, ec.weierstrass(TAB[n])))
    for n in TWIST:
        e = edwards_only(TAB[n])
        out.append((1 if n in C256 else 2, {'par': e}, ec.weierstrass(e)))
        e = ec.edwards_scaled(e, c.rng.randrange(2, e['p']))
        out.append((1 if n in C256 else 2, {'par': e}, ec.weierstrass(e)))
    out.append((1, {'par': GOST_EX}, GOST_EX))
    for base, mode in [(GOST_EX, 1)] + [(ec.weierstrass(TAB[n]), 1 if n in C256 else 2) for n in CURVES]:
        w = ec.isomorph(base, c.rng.randrange(1, base['p']), c.rng.randrange(1, base['q']))
        out.append((mode, {'par': w}, w))
    return out


def num_choices(c, q, size):
    """Exponents worth trying, between 1 and q - 1."""
    r = c.rng
    return [1, 2, 3, 4, 5, 7, 8, q - 1, q - 2, q - 3, q // 2, q // 2 + 1, 1 << (q.bit_length() - 1), (1 << (q.bit_length() - 1)) - 1,
            1 << r.randrange(1, q.bit_length() - 1), r.randrange(1, 1 << 64), r.randrange(1, 1 << 128), (r.randrange(1, q) >> 128 << 128) or 1,
            (1 << r.randrange(2, q.bit_length())) - 1, r.randrange(1, q), r.randrange(1, q), r.randrange(1, q), r.randrange(1, q)]


def digest_choices(c, q, size):
    top = 1 << (8 * size)
    out = [0, q, 1, q - 1, q + 1, top - 1, c.rng.randrange(q, top), c.rng.randrange(top), c.rng.randrange(top), c.rng.randrange(top), c.rng.randrange(1 << 100)]
    if 2 * q < top:
        out.append(2 * q)
    if 3 * q < top:
        out.append(3 * q)
    return [x for x in out if x < top]


def key_bytes(c, d, q, size):
    """A private key equal to d modulo q."""
    n = d
    if c.rng.random() < 0.3:
        n = d + q * c.rng.randrange(0, ((1 << (8 * size)) - 1 - d) // q + 1)
    return n.to_bytes(size, 'big')


def find_small(c, w, bits, limit):
    """Multiples k of the base point with a leading zero byte in one coordinate, or nearly."""
    found = []
    k = c.rng.randrange(1, w['q'] - limit)
    P = (w['x'], w['y'])
    Q = ec.mul(w, k, P)
    n = (w['p'].bit_length() + 7) // 8
    for _ in range(limit):
        if Q is not None and (Q[0] >> (8 * n - bits) == 0 or Q[1] >> (8 * n - bits) == 0 or (Q[0] % w['q']) >> (8 * n - bits) == 0):
            found.append(k)
            if len(found) >= 6:
                break
        Q = ec.add(w, Q, P)
        k += 1
    return found


def b2(n, size):
    return n.to_bytes(size, 'big')


# ---------------------------------------------------------------- C12
def grid(c, mode, kw, w, n, wrong=0):
    """Signs with every combination of n keys, digests and random numbers on one object; all are verified, some with a wrong key or digest."""
    r, rng = c.r, c.rng
    r.scenario('grid')
    size, q = size_of(mode), w['q']
    s = r.new('s.new', mode=mode, **kw)
    keys = [b2(rng.randrange(1, q), size) for _ in range(n)]
    es = [c.rb(size) for _ in range(n)]
    ks = [b2(rng.randrange(1, q), size) for _ in range(n)]
    pubs = {}
    for d in keys:
        Q = ec.mul(w, int.from_bytes(d, 'big'), (w['x'], w['y']))
        pubs[d] = b2(Q[0], size) + b2(Q[1], size)
    todo = []
    for d, e, k in [(d, e, k) for d in keys for e in es for k in ks]:
        if wrong:
            R, di, en = ec.mul(w, int.from_bytes(k, 'big'), (w['x'], w['y']))[0] % q, int.from_bytes(d, 'big'), int.from_bytes(e, 'big') % q or 1
            sg = b2(R, size) + b2((R * di + int.from_bytes(k, 'big') * en) % q, size)
        else:
            sg = r.call('s.sign', s, key=c.ty(d), digest=c.ty(e), k=c.ty(k))
        if isinstance(sg, bytes):
            todo.append((pubs[d], e, sg))
            if rng.random() < wrong:
                todo.append((pubs[rng.choice(keys)], rng.choice(es), sg))
    rng.shuffle(todo)
    for pub, e, sg in todo:
        r.call('s.verify', s, pub=c.ty(pub), digest=c.ty(e), sig=c.ty(sg))


@family
def sign_std(c):
    r, rng = c.r, c.rng
    todo = curve_choices(c)
    work = []
    for ci, (mode, kw, w) in enumerate(todo):
        for rep in range(c.q(3 if mode == 1 else 2, 24 if mode == 1 else 12)):
            work.append((ci, rep))
    for ci, rep in c.mine(work):
        mode, kw, w = todo[ci]
        size, q = size_of(mode), w['q']
        r.scenario('sign %s %d' % (kw.get('curve', 'own'), rep))
        s = r.new('s.new', mode=mode, **kw)
        ds = num_choices(c, q, size)
        es = digest_choices(c, q, size)
        rng.shuffle(ds)
        for j in range(c.q(6, 12)):
            d = ds[j % len(ds)]
            k = rng.choice(num_choices(c, q, size))
            e = rng.choice(es)
            key = key_bytes(c, d, q, size)
            kb = b2(k, size) if rng.random() < 0.7 else k.to_bytes((k.bit_length() + 7) // 8 + rng.randrange(3), 'big')
            sg = r.call('s.sign', s, key=c.ty(key), digest=c.ty(b2(e, size)), k=c.ty(kb))
            if j < 2 and isinstance(sg, bytes):
                pub = r.call('s.pub', s, key=c.ty(key))
                if isinstance(pub, bytes):
                    r.call('s.verify', s, pub=c.ty(pub), digest=c.ty(b2(e, size)), sig=c.ty(sg))
        # a digest for which s = 0
        d, k = rng.randrange(1, q), rng.choice(num_choices(c, q, size))
        R = ec.mul(w, k, (w['x'], w['y']))[0] % q
        if R:
            e = -R * d * ec.inv(k, q) % q
            r.call('s.sign', s, key=b2(d, size), digest=b2(e, size), k=b2(k, size))
        if rng.random() < 0.5:
            # the system source gives the number
            sg = r.call('s.sign', s, key=c.ty(b2(d, size)), digest=c.ty(c.rb(size)))
    # calls that differ in one byte of one argument
    for ci, (mode, kw, w) in enumerate(todo):
        if ci % c.nsh != c.shard or mode == 2 and rng.random() < c.q(0.5, 0):
            continue
        r.scenario('sign neighbours')
        size, q = size_of(mode), w['q']
        s = r.new('s.new', mode=mode, **kw)
        for v in c.variants(c.q(5, 20), key=c.rb(size), digest=c.rb(size), k=b2(rng.randrange(1 << 200, q >> 1), size)):
            if 0 < int.from_bytes(v['k'], 'big') < q:
                r.call('s.sign', s, key=c.ty(v['key']), digest=c.ty(v['digest']), k=c.ty(v['k']))
    # every combination of a few keys, digests and random numbers on one object, verified in another order
    for ci, (mode, kw, w) in enumerate(todo[:len(CURVES)]):
        if (ci + 5) % c.nsh != c.shard or mode == 2 and not c.deep:
            continue
        grid(c, mode, kw, w, 2)
    # components with leading zeros
    for ci, (mode, kw, w) in enumerate(todo):
        if ci % c.nsh != c.shard:
            continue
        r.scenario('leading zeros')
        size, q = size_of(mode), w['q']
        s = r.new('s.new', mode=mode, **kw)
        for k in find_small(c, w, 8, c.q(500, 4000))[:c.q(2, 6)]:
            r.call('s.sign', s, key=b2(rng.randrange(1, q), size), digest=c.rb(size), k=b2(k, size))
        # s small: e chosen so that s takes a given value
        for want in (1, q - 1, 255, 1 << 64):
            d, k = rng.randrange(1, q), rng.randrange(1, q)
            R = ec.mul(w, k, (w['x'], w['y']))[0] % q
            e = (want - R * d) * ec.inv(k, q) % q
            r.call('s.sign', s, key=b2(d, size), digest=b2(e, size), k=b2(k, size))
    # sign and verify as used, no k
    for ci, (mode, kw, w) in enumerate(todo):
        if (ci + 3) % c.nsh != c.shard or ci >= len(CURVES) + 4 and not c.deep:
            continue
        r.scenario('roundtrip')
        size = size_of(mode)
        s = r.new('s.new', mode=mode, **kw)
        for _ in range(c.q(1, 4)):
            key, dg = c.rb(size), c.rb(size)
            sg = r.call('s.sign', s, key=c.ty(key), digest=c.ty(dg))
            pub = r.call('s.pub', s, key=c.ty(key))
            if isinstance(sg, bytes) and isinstance(pub, bytes):
                r.call('s.verify', s, pub=c.ty(pub), digest=c.ty(dg), sig=c.ty(sg))


# ---------------------------------------------------------------- C13
@family
def verify_std(c):
    r, rng = c.r, c.rng
    todo = curve_choices(c)
    for ci, (mode, kw, w) in enumerate(todo[:len(CURVES)]):
        if (ci + 1) % c.nsh == c.shard and (mode == 1 or c.deep):
            grid(c, mode, kw, w, c.q(2, 3), 0.7)
    work = [(ci, rep) for ci, t in enumerate(todo) for rep in range(c.q(2 if t[0] == 1 else 1, 10 if t[0] == 1 else 5))]
    for ci, rep in c.mine(work):
        mode, kw, w = todo[ci]
        size, q, p = size_of(mode), w['q'], w['p']
        top = 1 << (8 * size)
        P = (w['x'], w['y'])
        r.scenario('verify %s %d' % (kw.get('curve', 'own'), rep))
        s = r.new('s.new', mode=mode, **kw)
        d = rng.choice(num_choices(c, q, size))
        Q = ec.mul(w, d, P)
        pub = b2(Q[0], size) + b2(Q[1], size)
        e = rng.choice(digest_choices(c, q, size))
        en = e % q or 1

        def ver(pb, dg, rr, ss):
            if 0 <= rr < top and 0 <= ss < top:
                r.call('s.verify', s, pub=c.ty(pb), digest=c.ty(b2(dg, size)), sig=c.ty(b2(rr, size) + b2(ss, size)))

        def forge(k):
            R = ec.mul(w, k, P)[0] % q
            return R, (R * d + k * en) % q
        R, S = forge(rng.choice(num_choices(c, q, size)))
        ver(pub, e, R, S)
        if rep == 0:                  # keys with a leading zero byte in a coordinate
            for k in find_small(c, w, 8, c.q(400, 2000))[:c.q(1, 4)]:
                K = ec.mul(w, k, P)
                kk = rng.randrange(1, q)
                r1 = ec.mul(w, kk, P)[0] % q
                ver(b2(K[0], size) + b2(K[1], size), e, r1, (r1 * k + kk * en) % q)
        # modified signature, digest, key
        full = b2(R, size) + b2(S, size)
        for _ in range(c.q(3, 8)):
            x = bytearray(full)
            x[rng.randrange(2 * size)] ^= 1 << rng.randrange(8)
            ver(pub, e, int.from_bytes(x[:size], 'big'), int.from_bytes(x[size:], 'big'))
        ver(pub, e ^ (1 << rng.randrange(8 * size)), R, S)
        y = bytearray(pub)
        y[rng.randrange(2 * size)] ^= 1 << rng.randrange(8)
        ver(bytes(y), e, R, S)
        ver(b2(Q[0], size) + b2(p - Q[1], size), e, R, S)
        ver(pub, e, S, R)
        ver(pub, e, q - R, S)
        ver(pub, e, R, q - S)
        ver(pub, e, q - R, q - S)
        # another first half, the second half made for it: the point is the same, and r is not its abscissa
        kk = rng.randrange(1, q)
        R1 = ec.mul(w, kk, P)[0] % q
        near = [R1 ^ (1 << (8 * j + rng.randrange(8))) for j in {0, size // 2 - 1, size // 2, size - 1, rng.randrange(size), rng.randrange(size)}]
        x = bytearray(b2(R1, size))
        i1, i2 = rng.sample(range(size), 2)
        x[i1], x[i2] = x[i2], x[i1]
        near += [int.from_bytes(x, 'big'), R1 + 1, R1 - 1, int.from_bytes(x[::-1], 'big')]
        for rr in near if c.deep or mode == 1 else rng.sample(near[:6], 4) + rng.sample(near[6:], 1):
            if 0 < rr < q:
                ver(pub, e, rr, (rr * d + kk * en) % q)
        # equal digests modulo q
        for t in (e + q, e - q, e % q):
            if 0 <= t < top:
                ver(pub, t, R, S)
        # out of range components
        for a, b in ((R + q, S), (R, S + q), (R + 2 * q, S), (R + q, S + q), (0, S), (R, 0), (0, 0), (q, S), (R, q), (q, q), (0, q), (top - 1, S), (R, top - 1),
                     (R, 1), (1, S), (1, 1), (q - 1, q - 1)):
            if rng.random() < c.q(0.5, 1):
                ver(pub, e, a, b)
        # sum at infinity: s = r d
        for rr in (rng.randrange(1, q), 1, q - 1):
            ver(pub, e, rr, rr * d % q)
        # both summands equal: s = -r d
        rr = rng.randrange(1, q)
        ver(pub, e, rr, -rr * d % q)
        # k for which that sum is right: z1 P = z2 Q means C = 2 z1 P; choose r from it: s = k' ...
        z1 = rng.randrange(1, q)
        C = ec.mul(w, 2 * z1 % q, P)
        rr = C[0] % q
        ss = -rr * d % q
        z = ss * ec.inv(en, q) % q
        if z:
            # rescale: with e' = ss / z1 the first summand is z1 P and the second the same point
            e2 = ss * ec.inv(z1, q) % q
            if e2:
                ver(pub, e2, rr, ss)
        # public key equal to the base point or its negative, valid signatures
        for d2 in (1, q - 1, 2, (q + 1) // 2):
            if rng.random() < c.q(0.4, 1):
                Q2 = ec.mul(w, d2, P)
                k = rng.choice((1, 2, q - 1, rng.randrange(1, q)))
                R2 = ec.mul(w, k, P)[0] % q
                S2 = (R2 * d2 + k * en) % q
                ver(b2(Q2[0], size) + b2(Q2[1], size), e, R2, S2)
        # s = 1, z1 small
        for want in (1, en, 2 * en % q):
            k = rng.randrange(1, q)
            # choose d3 so that s = want
            R3 = ec.mul(w, k, P)[0] % q
            d3 = (want - k * en) * ec.inv(R3, q) % q
            if d3:
                Q3 = ec.mul(w, d3, P)
                ver(b2(Q3[0], size) + b2(Q3[1], size), e, R3, want)
        # keys that are no points of the curve, a point of another curve, unreduced coordinates, zero
        bad = [(Q[0], (Q[1] + 1) % p), (Q[1], Q[0]), (0, 0), (top - 1, top - 1), (Q[0] + p, Q[1]), (Q[0], Q[1] + p), (p, Q[1]), (0, Q[1]), (Q[0], 0),
               ((Q[0] + 1) % p, Q[1]), (Q[0], p), (p - Q[0], Q[1])]
        for bx, by in bad:
            if 0 <= bx < top and 0 <= by < top and rng.random() < c.q(0.6, 1):
                ver(b2(bx, size) + b2(by, size), e, R, S)
        # a forgery with a key off the curve: the formulas do not use b, so the equation of another
        # curve through the point holds
        bx, by = rng.randrange(p), rng.randrange(p)
        b_other = (by * by - bx ** 3 - w['a'] * bx) % p
        w2 = dict(w, b=b_other)
        z2 = rng.randrange(1, 1 << 16)
        ver(b2(bx, size) + b2(by, size), e, (ec.mul(w2, z2, (bx, by)) or (1, 1))[0] % q or 1, rng.randrange(1, q))
        # points of small order and shifted by them
        T = []
        if w['m'] != q:
            # two-torsion: roots of the cubic through the factorisation known from the Edwards form
            for n in TWIST:
                we = ec.weierstrass(edwards_only(TAB[n]))
                if we['p'] == p and we['a'] == w['a'] and we['b'] == w['b']:
                    pe = TAB[n]
                    t = (pe['e'] + pe['d']) * ec.inv(6, p) % p
                    sv = (pe['e'] - pe['d']) * ec.inv(4, p) % p
                    T.append((t, 0))
                    u = ec.sqrt(ec.inv(pe['e'], p), p)
                    if u:
                        T.append(((sv + t) % p, sv * ec.inv(u, p) % p))
        for tp in T:
            if (tp[1] ** 2 - tp[0] ** 3 - w['a'] * tp[0] - w['b']) % p == 0:
                ver(b2(tp[0], size) + b2(tp[1], size), e, R, S)
                ver(b2(tp[0], size) + b2(tp[1], size), e, R, (R + 1) % q)
                X = ec.add(w, Q, tp)
                ver(b2(X[0], size) + b2(X[1], size), e, R, S)
                # equation that holds with the small point: C = z1 P + z2 T depends on z2 mod 4 only
                for z1 in (1, 2, rng.randrange(1, q)):
                    for m in range(4):
                        C = ec.add(w, ec.mul(w, z1, P), ec.mul(w, m, tp) if m else None)
                        rr = C[0] % q
                        # z1 = s/e, z2 = -r/e mod q must be m mod 4: try e
                        for _ in range(12):
                            ee = rng.randrange(1, q)
                            if (-rr * ec.inv(ee, q)) % q % 4 == m:
                                ver(b2(tp[0], size) + b2(tp[1], size), ee, rr, z1 * ee % q)
                                break


# ---------------------------------------------------------------- C14
@family
def pub_std(c):
    r, rng = c.r, c.rng
    todo = curve_choices(c)
    for ci, (mode, kw, w) in enumerate(todo):
        size, q = size_of(mode), w['q']
        top = 1 << (8 * size)
        r.scenario('pub %s' % kw.get('curve', 'own'))
        s = r.new('s.new', mode=mode, **kw)
        ds = num_choices(c, q, size)
        for i in range(c.q(0, 60 if mode == 1 else 20)):
            ds.append(rng.randrange(1, q))
        for d in c.mine(ds):
            r.call('s.pub', s, key=c.ty(key_bytes(c, d, q, size)))
        sp = [0, q, 2 * q, 3 * q, q + 1, 2 * q - 1, top - 1, q - 1, q + (1 << 20)]
        for x in c.mine([x for x in sp if x < top]):
            r.call('s.pub', s, key=c.ty(b2(x, size)))
            r.call('s.sign', s, key=c.ty(b2(x, size)), digest=c.rb(size), k=b2(rng.randrange(1, q), size))
        if (ci + 3) % c.nsh == c.shard:
            for v in c.variants(c.q(6, 30), key=c.rb(size)):
                r.call('s.pub', s, key=c.ty(v['key']))
        if ci % c.nsh == c.shard:
            for k in find_small(c, w, 8, c.q(600, 20000))[:c.q(2, 6)]:
                r.call('s.pub', s, key=c.ty(b2(k, size)))
            if c.deep:
                for k in find_small(c, w, 16, 70000)[:2]:
                    r.call('s.pub', s, key=c.ty(b2(k, size)))


# ---------------------------------------------------------------- C15
def fake_curve(rng, p, q, m=None):
    """Parameters that fulfil the equation of the base point, whatever p and q are."""
    a, x, y = (rng.randrange(1, p) if p > 1 else 1 for _ in range(3))
    return {'p': p, 'q': q, 'm': m if m is not None else q, 'a': a, 'b': (y * y - x ** 3 - a * x) % p or p, 'x': x, 'y': y}


SECP256K1 = {'p': 2 ** 256 - 2 ** 32 - 977, 'a': 0, 'b': 7, 'm': 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141, 'q': 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141,
             'x': 0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798, 'y': 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8}
CURVE_P = {1: 2 ** 256 - 617, 2: 2 ** 512 - 569}


@family
def curve_std(c):
    r, rng = c.r, c.rng
    # standard values, before and after use
    r.scenario('built-in parameters')
    for n in CURVES:
        r.call('s.builtin', curve=n)
    for n in CURVES:
        for mode in (1, 2):
            r.scenario('new %s mode %d' % (n, mode))
            r.new('s.new', mode=mode, curve=n)
    todo = curve_choices(c)
    for ci, (mode, kw, w) in enumerate(todo):
        r.scenario('accepted and used')
        s = r.new('s.new', mode=mode, **kw)
        if ci % c.nsh == c.shard:
            size, q = size_of(mode), w['q']
            r.call('s.sign', s, key=c.rb(size), digest=c.rb(size), k=b2(rng.randrange(1, q), size))
            r.call('s.pub', s, key=c.rb(size))
        # base point moved off the curve, m = p, q out of range
        if ci % 2 == c.shard % 2:
            size, q, p = size_of(mode), w['q'], w['p']
            for mod in ({'x': (w['x'] + 1) % p}, {'y': (w['y'] + rng.randrange(1, p)) % p}, {'a': (w['a'] + 1) % p}, {'b': (w['b'] + rng.randrange(1, p)) % p}, {'y': p - w['y']},
                        {'m': p}, {'m': p + 1}, {'m': p - 1}, {'q': (1 << (254 if mode == 1 else 508)) - 1}, {'q': (1 << (254 if mode == 1 else 508)) + 1 + 2 * rng.randrange(1000)},
                        {'q': (1 << (8 * size)) - 1}, {'q': (1 << (8 * size)) + 1}, {'q': q >> 2}, {'q': q << 2}, {'q': (1 << 255) + 5}, {'q': (1 << 509) + 1},
                        {'q': (1 << 253) + 1}, {'q': (1 << 507) + 7}, {'q': (1 << 257) - 1}, {'q': (1 << 513) - 1}):
                r.scenario('modified parameters')
                r.new('s.new', mode=mode, par=dict(w, **mod))
                r.new('s.new', mode=3 - mode, par=dict(w, **mod))
    # Edwards form
    for n in TWIST:
        mode = 1 if n in C256 else 2
        for _ in range(c.q(2, 8)):
            r.scenario('edwards')
            e = ec.edwards_scaled(edwards_only(TAB[n]), rng.randrange(2, TAB[n]['p']))
            w = ec.weierstrass(e)
            size = size_of(mode)
            s1 = r.new('s.new', mode=mode, par=e)
            s2 = r.new('s.new', mode=mode, par=w)
            key, dg, k = c.rb(size), c.rb(size), b2(rng.randrange(1, w['q']), size)
            for s in (s1, s2):
                pub = r.call('s.pub', s, key=key)
                sg = r.call('s.sign', s, key=key, digest=dg, k=k)
            for s in (s1, s2):
                if isinstance(pub, bytes) and isinstance(sg, bytes):
                    r.call('s.verify', s, pub=pub, digest=dg, sig=sg)
            bad = dict(e)
            bad[rng.choice('edu')] ^= 1 << rng.randrange(200)
            r.new('s.new', mode=mode, par=bad)
            r.new('s.new', mode=mode, par=dict(e, x=0, y=0, a=0, b=0))
            r.new('s.new', mode=mode, par=dict(e, v=(e['v'] + 1) % e['p']))
    # embedding degree
    for mode in (1, 2):
        bits, lim = (256, 31) if mode == 1 else (512, 131)
        ts = list(range(1, lim + 1)) + [lim + 1, lim + 2, lim + 5, 2 * lim]
        if mode == 2 and not c.deep:
            ts = list(range(1, 34)) + [40, 64, 97, 99, 100, 127, 128, 129, 130, 131, 132, 133, 140]
        for t in c.mine(ts):
            r.scenario('embedding degree %d of %d' % (t, bits))
            q, g = ec.order_pair(rng, t, bits)
            for p in {g or 1, g + q if (g + q).bit_length() <= bits else g or 1}:
                if p > 1:
                    r.new('s.new', mode=mode, par=fake_curve(rng, p, q))
            r.new('s.new', mode=mode, par=fake_curve(rng, (rng.randrange(1 << (bits - 1)) | 1), q))
    # every comparison of p and m
    for mode in (1, 2):
        bits = 256 * mode
        for _ in range(c.q(2, 20)):
            r.scenario('m and p')
            q = rng.randrange(1 << (bits - 2), 1 << bits) | 1
            p = rng.randrange(1 << (bits - 1), 1 << bits) | 1
            for m in (p, q, p + 1, 1, 0, p ^ 1, p >> 8, p * 2):
                r.new('s.new', mode=mode, par=fake_curve(rng, p, q, m))
    # zero coefficients and coordinates in the canonical form
    for mode in (1, 2):
        bits = 256 * mode
        for zero in c.mine([('a',), ('b',), ('x',), ('y',), ('a', 'b'), ('a', 'x'), ('a', 'y'), ('b', 'x', 'y'), ('x', 'b', 'y', 'a')] * c.q(1, 6)):
            r.scenario('zero ' + ' '.join(zero))
            q = rng.randrange(1 << (bits - 2), 1 << bits) | 1
            p = CURVE_P[mode]
            v = {'p': p, 'q': q, 'm': q, 'a': 0 if 'a' in zero else rng.randrange(1, p), 'x': 0 if 'x' in zero else rng.randrange(1, p), 'y': 0 if 'y' in zero else rng.randrange(1, p)}
            if 'b' in zero:
                # b = 0: y^2 = x^3 + a x; with x = t^2 and a = 0, y = t^3
                t = rng.randrange(1, p)
                v.update({'x': 0, 'y': 0} if 'x' in zero else {'x': t * t % p, 'y': t ** 3 % p} if 'a' in zero else {'a': (v['y'] ** 2 - v['x'] ** 3) * ec.inv(v['x'], p) % p})
                v['b'] = 0
            else:
                v['b'] = (v['y'] ** 2 - v['x'] ** 3 - v['a'] * v['x']) % p
            for extra in ({}, {'e': rng.randrange(p), 'd': rng.randrange(p), 'u': rng.randrange(p), 'v': rng.randrange(p)}):
                r.new('s.new', mode=mode, par=dict(v, **extra))
                w = {k: n for k, n in v.items() if n}
                r.new('s.new', mode=mode, par=dict(w, **extra))
    for w in (SECP256K1, dict(SECP256K1, y=SECP256K1['p'] - SECP256K1['y'])):
        if c.shard == 1:
            r.scenario('curve with a = 0')
            s = r.new('s.new', mode=1, par=w)
            key, dg, k = c.rb(32), c.rb(32), b2(rng.randrange(1, w['q']), 32)
            pub = r.call('s.pub', s, key=key)
            sg = r.call('s.sign', s, key=key, digest=dg, k=k)
            if isinstance(pub, bytes) and isinstance(sg, bytes):
                r.call('s.verify', s, pub=pub, digest=dg, sig=sg)
    # q sizes, all of them
    for mode in (1, 2):
        for b in c.mine(list(range(240, 270)) + list(range(500, 520)) + [1, 2, 64, 128, 1024]):
            r.scenario('q of %d bits' % b)
            q = rng.randrange(1 << (b - 1), 1 << b) | 3
            p = rng.randrange(1 << 255, 1 << 256) | 1
            r.new('s.new', mode=mode, par=fake_curve(rng, p, q))
    r.scenario('missing parameters')
    w = ec.weierstrass(TAB[C256[0]])
    for k in ('m', 'a', 'b', 'x', 'y'):
        v = dict(w)
        del v[k]
        r.new('s.new', mode=1, par=v)
    r.scenario('built-in parameters afterwards')
    for n in CURVES:
        r.call('s.builtin', curve=n)


# ---------------------------------------------------------------- C19
def oid_values(c):
    rng = c.rng
    out = ['0.0', '0.39', '1.0', '1.39', '2.0', '2.39', '2.40', '2.47', '2.48', '2.100', '2.175', '2.176', '2.999', '2.16383', '2.16303', '2.16304', '2.99999999', '1.2.643', '1.2.840.113549']
    edge = [0, 1, 126, 127, 128, 129, 255, 256, 16383, 16384, 16385, 2097151, 2097152, 268435455, 268435456, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 35 - 1, 2 ** 35, 2 ** 63, 2 ** 64 - 1, 2 ** 64, 2 ** 70, 2 ** 127, 2 ** 128, 10 ** 30, 10 ** 60]
    for e in edge:
        out.append('1.2.%d' % e)
        out.append('2.%d' % e)
        out.append('2.%d.%d.%d' % (e, rng.choice(edge), rng.choice(edge)))
        if e < 40:
            out.append('0.%d.%d' % (e, rng.choice(edge)))
    for s in range(1, 22):
        for d in (-1, 0, 1):
            out.append('1.3.%d' % (2 ** (7 * s) + d))
            out.append('2.%d' % (2 ** (7 * s) + d))
            out.append('2.%d' % max(0, 2 ** (7 * s) - 80 + d))
    # contents of an exact number of bytes: from many small components, from one huge one, mixed
    for n in list(range(120, 136)) + [1, 2, 3, 200, 253, 254, 255, 256, 257, 258, 300, 511, 512, 513, 700] + c.q([], [1000, 1023, 1024, 4095, 4096]):
        out.append('.'.join(['1', '2'] + ['%d' % rng.randrange(128) for _ in range(n - 1)]))
        if 1 < n < 1500:              # numbers of more than 4300 digits are beyond the interpreter
            out.append('1.2.%d' % (2 ** (7 * (n - 1)) - 1 - rng.getrandbits(7 * (n - 1) - 7 if n > 2 else 1)))
            out.append('2.%d.5' % (2 ** (7 * (n - 1)) - 81 - rng.getrandbits(6 if n > 2 else 1)))
        if n > 3:
            k = rng.randrange(1, min(n - 2, 1500))
            out.append('2.999.%d' % (2 ** (7 * k) - 1) + '.%d' % rng.randrange(100) * (n - 2 - k))
    for _ in range(c.q(300, 4000)):
        first = rng.randrange(3)
        second = rng.randrange(40) if first < 2 else rng.choice((rng.randrange(40), rng.randrange(1000), rng.getrandbits(rng.randrange(1, 90))))
        out.append('.'.join(str(x) for x in [first, second] + [rng.choice((rng.randrange(3), rng.randrange(300), rng.getrandbits(rng.randrange(1, 100)))) for _ in range(rng.randrange(0, 12))]))
    return out


def bad_oids(c):
    rng = c.rng
    out = ['', '1', '0', '2', '.', '1.', '.1', '1..2', '1.2.', '.1.2', '1.2..3', 'a', 'a.b', '1.a', '1.2.x', '1.2.3a', '-1.2', '1.-2', '1.2.-3', '3.1', '4.0', '9.9.9', '1.40', '0.40', '0.41.5', '1.999', '1.2 .3', ' 1.2', '1.2 ',
           '1.2\n', '1,2', '+1.2', '1.+2', '01.2', '1.02', '1.2.00', '1.2_0', '1_0.2', '1.2.1_0', '\u0661.2', '1.\uff12', '1.2.\u00b2', '1.2.3.4.5.', '1.2.0x10', '1.2e3', '3', '39', '1.2.3.-0', '1 .2', '1. 2', '1.2.3\0', '1.2.\t3', '10.2', '00.1', '1.39.', '2.-1']
    for _ in range(c.q(100, 1500)):
        s = list('.'.join(str(rng.randrange(60)) for _ in range(rng.randrange(1, 6))))
        for _ in range(rng.randrange(1, 3)):
            i = rng.randrange(len(s) + 1)
            k = rng.randrange(3)
            if k == 0:
                s.insert(i, rng.choice('. -+_aXe0,'))
            elif k == 1 and s:
                del s[min(i, len(s) - 1)]
            elif s:
                s[min(i, len(s) - 1)] = rng.choice('. -+_9a')
        out.append(''.join(s))
    return out


def zeros_in(rng, s):
    """The text with superfluous zeros in front of one component, of each."""
    cs = s.split('.')
    i = rng.randrange(len(cs))
    return ['.'.join(cs[:i] + ['0' + cs[i]] + cs[i + 1:]), '.'.join('0' * rng.randrange(1, 4) + x for x in cs), '.'.join(cs[:-1] + ['00' + cs[-1]])]


def use_oid(c, s):
    r = c.r
    o = r.new('o.new', s=s)
    ops = ['o.text', 'o.name', 'o.digit', 'o.octet']
    c.rng.shuffle(ops)
    for op in ops:
        r.call(op, o)
    if c.rng.random() < 0.3:
        for op in ops:
            r.call(op, o)
    r.free(o)




@family
def oid_std(c):
    r = c.r
    names = c.hist.get('oids', [])
    n = 0
    for s in c.mine(names + [x + y for x in names for y in ('.0', '.1', '0')] + [x.rsplit('.', 1)[0] for x in names] + [y for x in names + ['1.2.840.113549', '2.5.4.3'] for y in zeros_in(c.rng, x)] + oid_values(c) + bad_oids(c)):
        if n % 40 == 0:
            r.scenario('identifiers')
        n += 1
        use_oid(c, s)
