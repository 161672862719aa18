"""Scenario generators: each drives the real code through calls and records them.

gen(name, rec, rng, tier, shard, nshards, hist) dispatches on the name of a family.
Histories produced by TLC (spec/Gen.tla) arrive in hist as lists of abstract operations.
"""
from rec import *

CURVES = list(gostsignature.CURVES_R_1323565_1_024_2019)
C256 = [c for c in CURVES if '256-' in c]
C512 = [c for c in CURVES if '512-' in c]
ALGS = ('kuznechik', 'magma')
SMODE = ('ecb', 'cbc', 'cfb', 'ofb', 'ctr')
HN = ('streebog256', 'streebog512')
MN = ('HMAC_GOSTR3411_2012_256', 'HMAC_GOSTR3411_2012_512')
BSZ = {'kuznechik': 16, 'magma': 8}
FAMILIES = {}


def family(f):
    FAMILIES[f.__name__] = f
    return f


class Ctx:
    def __init__(self, rec, rng, tier, shard, nshards, hist):
        self.r, self.rng, self.tier, self.shard, self.nsh, self.hist = rec, rng, tier, shard, nshards, hist
        self.deep = tier != 'quick'

    def rb(self, n):
        return bytes(self.rng.getrandbits(8) for _ in range(n))

    def ty(self, b):
        """bytes or bytearray, at random."""
        return bytearray(b) if self.rng.random() < 0.5 else bytes(b)

    def pattern(self, n):
        """Content: random, constant, structured."""
        k = self.rng.randrange(9)
        if k >= 7:
            # zeros (or ones) in front or behind
            z = min(n, self.rng.choice((1, 1, 2, 4, 8, 15)))
            b = self.rng.choice((b'\0', b'\0', b'\xff')) * z
            return b + self.rb(n - z) if k == 7 else self.rb(n - z) + b
        if k == 0:
            return bytes(n)
        if k == 1:
            return b'\xff' * n
        if k == 2:
            return bytes([self.rng.choice((1, 0x7f, 0x80, 0xfe))]) * n
        if k == 3:
            return bytes(i & 255 for i in range(n))
        if k == 4:
            b = bytearray(n)
            if n:
                b[self.rng.randrange(n)] = 1 << self.rng.randrange(8)
            return bytes(b)
        return self.rb(n)

    def span(self, b):
        """Length of a piece, b bytes to the block: around and at whole blocks, up to 33 of them."""
        k = self.rng.choice((0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, self.rng.randrange(34)))
        return max(0, k * b + self.rng.choice((0, 0, 0, 1, -1, self.rng.randrange(b))))

    def near(self, b):
        """b with one byte changed, if it has any."""
        b = bytearray(b)
        if b:
            b[self.rng.randrange(len(b))] ^= 1 << self.rng.randrange(8)
        return bytes(b)

    def variants(self, n, **kw):
        """n sets of arguments: neighbours differ in one byte of one of them, and earlier sets come again."""
        seen = [kw]
        for _ in range(n):
            cur = dict(self.rng.choice(seen[-3:]))
            k = self.rng.choice(sorted(kw))
            if self.rng.random() < 0.8:
                cur[k] = self.near(cur[k]) if isinstance(cur[k], bytes) else self.rng.choice((max(1, cur[k] - 1), cur[k] + 1))
            seen.append(cur)
        return seen

    def mine(self, seq):
        """The part of a list that belongs to this shard."""
        return [x for j, x in enumerate(seq) if j % self.nsh == self.shard]

    def q(self, quick, deep):
        return deep if self.deep else quick


# ---------------------------------------------------------------- C01
# one piece of an update: around the sizes at which an implementation may change the way it takes a piece in
BIGPIECES = (1000, 1024, 2048, 4095, 4096, 4097, 5000, 6143, 8191, 8192, 8193, 10001, 12288, 16384, 16385, 20000)


@family
def hash_std(c):
    r = c.r

    def one(name, data, how):
        if how == 0:
            h = r.new('h.new', name=name, data=data)
        else:
            h = r.new('h.new', name=name)
            r.call('h.update', h, data=data)
        r.call('h.digest', h)
        r.free(h)
    jobs = [(n, ln) for n in HN for ln in list(range(0, c.q(200, 700))) + [255, 256, 257, 511, 512, 513, 1023, 1024, 4095, 4096, 4097, 8127, 8128, 8129, 8191, 8192, 8193, 8256]]
    for i, (n, ln) in enumerate(c.mine(jobs)):
        if i % 50 == 0:
            r.scenario('hash lengths')
        for _ in range(c.q(1, 3)):
            one(n, c.ty(c.pattern(ln)), c.rng.randrange(2))
    r.scenario('hash random')
    for _ in range(c.q(150, 1500) // c.nsh + 1):
        one(c.rng.choice(HN), c.ty(c.rb(c.rng.randrange(0, 900))), c.rng.randrange(2))
    r.scenario('checksum carries')
    for _ in range(c.q(40, 300) // c.nsh + 1):
        # blocks whose sum carries across a chosen run of bytes
        a = bytearray(c.rb(64))
        lo, hi = sorted(c.rng.sample(range(64), 2))
        b = bytearray(c.rb(64))
        for j in range(lo, hi + 1):
            b[j] = (255 - a[j]) & 255
        if c.rng.random() < 0.7:
            b[lo] = (256 - a[lo]) & 255 if a[lo] else 255
        one(c.rng.choice(HN), c.ty(bytes(a + b) + c.rb(c.rng.randrange(64))), 1)
    r.scenario('hash neighbours')
    for _ in range(c.q(2, 12)):
        for v in c.variants(12, data=c.rb(c.rng.choice((1, 20, 64, 65, 130)))):
            one(c.rng.choice(HN), bytearray(v['data']), c.rng.randrange(2))
    r.scenario('long')
    for n, ln in c.mine([(n, ln) for ln in (8191, 8192, 16384, 65536 + 5, 131072) for n in HN]):
        one(n, Rep(255, ln), 0)
        one(n, Rep(c.rng.randrange(256), ln + c.rng.randrange(64)), 1)
    big = [(HN[0], 2097152), (HN[1], 2097152 + 1)]
    if c.deep:
        big += [(HN[1], 2097152 - 64), (HN[0], 2097152 + 63), (HN[0], 4194304), (HN[1], 2100000)]
    for n, ln in c.mine(big):
        one(n, Rep(255, ln), 0)


# ---------------------------------------------------------------- C02 (and histories for C09, C21, C17)
ULEN = {'u0': 0, 'u1': 1, 'u63': 63, 'u64': 64, 'u65': 65, 'u130': 130}


def run_hash_history(c, hist, name, r, pfx, key=None, oneshots=True, attrs=False):
    """hist: abstract operations of Gen.tla; pfx 'h' or 'm'."""
    rng = c.rng
    kw = {} if key is None else {'key': key}
    objs = []
    data = []
    cur = 0
    seen = []

    def dig(i, hexa=False):
        r.call(pfx + ('.hexdigest' if hexa else '.digest'), objs[i])
        if bytes(data[i]) not in seen:
            seen.append(bytes(data[i]))
    for op in hist:
        if op.startswith('new'):
            d = c.rb(int(op[3:] or 0))
            if op == 'new':
                objs.append(r.new(pfx + '.new', name=name, **kw))
            else:
                objs.append(r.new(pfx + '.new', name=name, data=c.ty(d), **kw))
            data.append(bytearray(d))
        elif op[0] == 'u':
            d = c.rb(ULEN[op] if op in ULEN else c.span(64))
            r.call(pfx + '.update', objs[cur], data=c.ty(d))
            data[cur] += d
        elif op == 'digest':
            dig(cur)
        elif op == 'hexdigest':
            dig(cur, True)
        elif op == 'copy':
            to = r.new_id()
            r.call(pfx + '.copy', objs[cur], to=to)
            objs.append(to)
            data.append(bytearray(data[cur]))
        elif op == 'switch':
            cur = (cur + 1) % len(objs)
        elif op == 'reset':
            r.call(pfx + '.reset', objs[cur])
            data[cur] = bytearray()
        elif op == 'bad':
            r.call(pfx + '.update', objs[cur], data=rng.choice(('text', None, 5, [1, 2], memoryview(b'abc'))))
        else:
            raise KeyError(op)
    for i in range(len(objs)):
        dig(i)
    if oneshots:
        for d in seen:
            o = r.new(pfx + '.new', name=name, data=bytes(d), **kw)
            r.call(pfx + '.digest', o)
            r.free(o)
            if len(d) <= 130:
                o = r.new(pfx + '.new', name=name, **kw)
                r.call(pfx + '.update', o, data=bytes(d))
                r.call(pfx + '.digest', o)
                r.free(o)
    r.free(*objs)


@family
def hash_inc(c):
    for i, h in enumerate(c.mine(c.hist['hash'])):
        c.r.scenario('history ' + ' '.join(h))
        run_hash_history(c, h, HN[(i + c.shard) % 2], c.r, 'h')
    for _ in range(c.q(160, 1600) // c.nsh + 1):
        c.r.scenario('random history')
        h = ['new' + c.rng.choice(('', '', '1', '63', '64', '65', '200'))]
        for _ in range(c.rng.randrange(4, 25)):
            h.append(c.rng.choice(('u0', 'u1', 'u63', 'u64', 'u65', 'u130', 'u*', 'u*', 'digest', 'hexdigest', 'copy', 'switch', 'switch', 'reset', 'bad')
                                  if h.count('copy') < 3 else ('u0', 'u1', 'u63', 'u64', 'digest', 'switch', 'u65', 'u*', 'u*')))
        run_hash_history(c, h, c.rng.choice(HN), c.r, 'h')
    # every split of one message in two, and byte by byte
    for name in HN:
        c.r.scenario('splits')
        m = c.rb(200)
        for cut in c.mine(range(0, 201)):
            h = c.r.new('h.new', name=name)
            c.r.call('h.update', h, data=c.ty(m[:cut]))
            c.r.call('h.update', h, data=c.ty(m[cut:]))
            c.r.call('h.digest', h)
            c.r.free(h)
        h = c.r.new('h.new', name=name)
        for b in m:
            c.r.call('h.update', h, data=bytes([b]))
        c.r.call('h.digest', h)
        h = c.r.new('h.new', name=name, data=m)
        c.r.call('h.digest', h)
    for i, n in enumerate(c.mine(BIGPIECES)):
        for k, name in enumerate(HN):
            c.r.scenario('large piece %d' % n)
            for pend in sorted({0, 1 + (n + i) % 63, 64 + (n + i) % 64}):
                h = c.r.new('h.new', name=name, **({'data': c.ty(c.rb(pend))} if pend % 2 else {}))
                if not pend % 2:
                    c.r.call('h.update', h, data=c.ty(c.rb(pend)))
                c.r.call('h.update', h, data=c.ty(c.rb(n)))
                if k == i % 2:
                    c.r.call('h.update', h, data=c.ty(c.rb(c.rng.randrange(1, 130))))
                c.r.call('h.digest', h)
                c.r.free(h)
    if c.shard == 0:
        # many blocks in unequal pieces: 8 KiB and more
        for name in HN:
            c.r.scenario('long pieces')
            m = c.rb(c.q(9000, 40000))
            h = c.r.new('h.new', name=name)
            p = 0
            while p < len(m):
                n = c.rng.choice((1, 64, 100, 64 * 7, 1000, 128 * 64))
                c.r.call('h.update', h, data=c.ty(m[p:p + n]))
                p += n
            c.r.call('h.digest', h)
            h = c.r.new('h.new', name=name, data=m)
            c.r.call('h.digest', h)


# ---------------------------------------------------------------- C03
def key_shapes(c):
    ks = [bytes(32), b'\xff' * 32, bytes(range(32)), b'\x80\0\0\0' * 8, b'\xff\xff\xff\xff\0\0\0\0' * 4, b'\0\0\0\1' * 8, b'\x7f\xff\xff\xff' * 8]
    return ks


@family
def block_std(c):
    r, rng = c.r, c.rng
    for alg in ALGS:
        bs = BSZ[alg]

        def use(o, blocks):
            for b in blocks:
                k = rng.randrange(4)
                if k != 1:
                    e = r.call('b.enc', o, data=c.ty(b))
                    if k == 2 and isinstance(e, bytes) and len(e) == bs:
                        r.call('b.dec', o, data=c.ty(e))
                if k in (0, 1):
                    r.call('b.dec', o, data=c.ty(b))
        keys = key_shapes(c) + [c.rb(32) for _ in range(c.q(60, 600))]
        keys += [bytes(1 << (7 - j % 8) if i == j // 8 else 0 for i in range(32)) for j in range(0, 256, c.q(4, 1))]
        for j, k in enumerate(c.mine(keys)):
            r.scenario('block ' + alg)
            o = r.new('b.new', alg=alg, key=c.ty(k))
            bl = [c.rb(bs) for _ in range(c.q(10, 20))] + [c.pattern(bs) for _ in range(4)]
            if j % 8 == 0:
                bl += [bytes(1 << (7 - t % 8) if i == t // 8 else 0 for i in range(bs)) for t in range(0, 8 * bs, 3)]
            use(o, bl)
        # additions with long carries: block halves complementary to key words
        if alg == 'magma':
            for _ in range(c.q(60, 400) // c.nsh + 1):
                r.scenario('carries')
                w = [rng.choice((0, 1, 0xffffffff, 0x80000000, 0xff, 0xff00, 0xffff0000, 0x00ffffff, rng.getrandbits(32))) for _ in range(8)]
                k = b''.join(x.to_bytes(4, 'big') for x in w)
                o = r.new('b.new', alg=alg, key=k)
                for d in (0, 1, 2, 255, 256, 0xffff0000):
                    x = ((1 << 32) - w[0] + d) & 0xffffffff
                    use(o, [c.rb(4) + x.to_bytes(4, 'big'), x.to_bytes(4, 'big') + c.rb(4)])
        # the same mapping through the modes interface
        for _ in range(c.q(40, 300) // c.nsh + 1):
            r.scenario('ecb ' + alg)
            o = r.new('c.new', alg=alg, key=c.ty(c.rb(32)), mode='ecb')
            for _ in range(4):
                r.call(rng.choice(('c.enc', 'c.dec')), o, data=c.ty(c.rb(bs * rng.randrange(1, 4))))
        for _ in range(c.q(3, 20)):
            r.scenario('neighbours ' + alg)
            for v in c.variants(12, key=c.rb(32), data=c.rb(bs)):
                o = r.new('b.new', alg=alg, key=bytearray(v['key']) if rng.random() < 0.8 else v['key'])
                r.call('b.enc', o, data=c.ty(v['data']))
                r.call('b.dec', o, data=c.ty(v['data']))
                r.call('b.enc', o, data=c.ty(c.near(v['data'])))
        r.scenario('long use ' + alg)
        o = r.new('b.new', alg=alg, key=c.rb(32))
        use(o, [c.rb(bs) for _ in range(c.q(600, 4000) // c.nsh)])


# ---------------------------------------------------------------- C04
def lens(bs, deep):
    return list(range(0, 3 * bs + 2)) + [4 * bs, 5 * bs - 1, 8 * bs, 9 * bs + 3] + (list(range(3 * bs + 2, 6 * bs)) if deep else [])


def ivs(c, alg, mode, every=False):
    bs = BSZ[alg]
    if mode == 'ecb':
        return [None]
    if mode == 'ctr':
        return [None, c.rb(bs // 2), b'\xff' * (bs // 2), bytes(bs // 2)]
    return [None] + [c.rb(bs * z) for z in (1, 2, 3, 5)] + [b'\xff' * bs]


def long_ivs(c):
    """Numbers of blocks of long registers."""
    return c.q((8, 9, 16, 17, 32, 33, 40, 65), (8, 9, 15, 16, 17, 24, 31, 32, 33, 40, 63, 64, 65, 100, 128, 129, 255, 256, 257))


def cnew(c, alg, mode, key, iv=None, pad=None, r=None):
    kw = {}
    if iv is not None:
        kw['iv'] = c.ty(iv)
    if pad is not None:
        kw['pad'] = pad
    return (r or c.r).new('c.new', alg=alg, key=c.ty(key), mode=mode, **kw)


@family
def modes_std(c):
    r, rng = c.r, c.rng
    todo = [(a, m, ln, p) for a in ALGS for m in SMODE for ln in lens(BSZ[a], c.deep) for p in ((None, 1, 2) if m in ('ecb', 'cbc') else (None,))]
    for a, m, ln, p in c.mine(todo):
        r.scenario('mode %s %s %d pad %s' % (a, m, ln, p))
        bs = BSZ[a]
        for iv in ivs(c, a, m) if c.deep else rng.sample(ivs(c, a, m), min(3, len(ivs(c, a, m)))):
            key = c.rb(32)
            o = cnew(c, a, m, key, iv, p)
            r.call('c.enc', o, data=c.ty(c.rb(ln)))
            o2 = cnew(c, a, m, key, iv, p)
            dl = ln if m in ('cfb', 'ofb', 'ctr') else ln // bs * bs
            r.call('c.dec', o2, data=c.ty(c.rb(dl)))
            r.free(o, o2)
    for i, (a, m) in enumerate([(a, m) for a in ALGS for m in SMODE] * c.q(1, 6)):
        if i % c.nsh % 4 != c.shard % 4:
            continue
        r.scenario('mode neighbours')
        bs = BSZ[a]
        base = {'key': c.rb(32), 'data': c.rb(bs * rng.randrange(1, 5))}
        if m != 'ecb':
            base['iv'] = c.rb(bs // 2 if m == 'ctr' else bs * rng.randrange(1, 3))
        for v in c.variants(10, **base):
            o = r.new('c.new', alg=a, mode=m, key=bytearray(v['key']), **({'iv': c.ty(v['iv'])} if 'iv' in v else {}))
            r.call(rng.choice(('c.enc', 'c.dec')), o, data=c.ty(v['data']))
            if rng.random() < 0.3:
                r.call(rng.choice(('c.enc', 'c.dec')), o, data=c.ty(v['data']))
    for a, m, z in c.mine([(a, m, z) for a in ALGS for m in ('cbc', 'cfb', 'ofb') for z in long_ivs(c)]):
        r.scenario('long register %s %s %d' % (a, m, z))
        bs, key = BSZ[a], c.rb(32)
        iv = c.rb(z * bs)
        for op in ('c.enc', 'c.dec'):
            o = cnew(c, a, m, key, iv)
            r.call(op, o, data=c.rb((z + 2) * bs))
            r.call('c.iv', o)
    for a, m, op in c.mine([(a, m, op) for a in ALGS for m in SMODE for op in ('c.enc', 'c.dec')]):
        r.scenario('64 KiB %s %s' % (a, m))
        bs = BSZ[a]
        o = cnew(c, a, m, c.rb(32), None if m == 'ecb' else c.rb(bs // 2 if m == 'ctr' else 2 * bs))
        r.call(op, o, data=c.rb(65536 + 2 * bs + (3 if m in ('cfb', 'ofb', 'ctr') else 0)))
    # counters crossing byte boundaries in one call
    for a in c.mine(ALGS):
        for n in (255, 256, 257, 300, 520):
            r.scenario('ctr carry')
            o = cnew(c, a, 'ctr', c.rb(32), c.rb(BSZ[a] // 2))
            r.call('c.enc', o, data=Rep(0, n * BSZ[a] + rng.randrange(3)))
            for m in ('ofb', 'cfb', 'cbc', 'ecb'):
                o = cnew(c, a, m, c.rb(32), None if m == 'ecb' else c.rb(2 * BSZ[a]))
                r.call('c.enc', o, data=Rep(rng.randrange(256), n * BSZ[a]))
    if c.shard == 0 or c.shard == 1 and c.deep:
        r.scenario('ctr long')
        a = 'magma' if c.shard == 0 else 'kuznechik'
        bs = BSZ[a]
        o = cnew(c, a, 'ctr', c.rb(32), b'\xff' * (bs // 2))
        n = 65538 * bs + 3
        r.call('c.enc', o, data=Rep(0, n), sample=[(0, 64), (255 * bs, 3 * bs), (65534 * bs, 4 * bs + 3), (32768 * bs, bs), (n - 40, 40)])


# ---------------------------------------------------------------- C05
def cut_blocks(c, n, bs, maxp=5):
    """Cuts of n bytes into pieces of whole blocks, the last one ragged; empty pieces allowed."""
    nb = n // bs
    k = c.rng.randrange(1, maxp)
    cuts = sorted(c.rng.randrange(nb + 1) * bs for _ in range(k))
    return [0] + cuts + [n]


@family
def roundtrip(c):
    r, rng = c.r, c.rng
    todo = [(a, m, ln, p) for a in ALGS for m in SMODE for ln in lens(BSZ[a], c.deep) for p in ((1, 2) if m in ('ecb', 'cbc') else (None,))]
    for a, m, ln, p in c.mine(todo):
        bs = BSZ[a]
        for iv in ivs(c, a, m) if c.deep else rng.sample(ivs(c, a, m), min(2, len(ivs(c, a, m)))):
            r.scenario('roundtrip %s %s %d' % (a, m, ln))
            key = c.rb(32)
            data = c.rb(ln) if rng.random() < 0.6 else c.pattern(ln)
            e = cnew(c, a, m, key, iv, p)
            ct = r.call('c.enc', e, data=c.ty(data))
            if not isinstance(ct, bytes):
                continue
            d = cnew(c, a, m, key, iv, p)
            r.call('c.dec', d, data=c.ty(ct))
            r.note('check.rt', enc=e, dec=d)
            d = cnew(c, a, m, key, iv, p)
            cuts = cut_blocks(c, len(ct), bs)
            for x, y in zip(cuts, cuts[1:]):
                r.call('c.dec', d, data=c.ty(ct[x:y]))
            r.note('check.rt', enc=e, dec=d)
    # encryption in pieces, decryption at once; long data
    for _ in range(c.q(60, 600) // c.nsh + 1):
        a, m = rng.choice(ALGS), rng.choice(SMODE)
        bs = BSZ[a]
        r.scenario('roundtrip pieces %s %s' % (a, m))
        key, iv = c.rb(32), rng.choice(ivs(c, a, m))
        n = rng.randrange(0, 20 * bs)
        data = c.rb(n)
        e = cnew(c, a, m, key, iv)
        ct = b''
        cuts = cut_blocks(c, n, bs)
        for x, y in zip(cuts, cuts[1:]):
            o = r.call('c.enc', e, data=c.ty(data[x:y]))
            ct += o if isinstance(o, bytes) else b''
        d = cnew(c, a, m, key, iv)
        r.call('c.dec', d, data=c.ty(ct))
        r.note('check.rt', enc=e, dec=d)
    for a in ALGS:
        for m in c.mine(SMODE):
            r.scenario('roundtrip long %s %s' % (a, m))
            key, iv = c.rb(32), ivs(c, a, m)[-1]
            e = cnew(c, a, m, key, iv)
            ct = r.call('c.enc', e, data=c.rb(300 * BSZ[a] + 5))
            if isinstance(ct, bytes):
                d = cnew(c, a, m, key, iv)
                r.call('c.dec', d, data=ct)
                r.note('check.rt', enc=e, dec=d)
    for a, m in c.mine([(a, m) for a in ALGS for m in SMODE]):
        r.scenario('roundtrip 64 KiB %s %s' % (a, m))
        key, iv = c.rb(32), ivs(c, a, m)[-1]
        e = cnew(c, a, m, key, iv)
        ct = r.call('c.enc', e, data=c.rb(65536 + rng.randrange(3 * BSZ[a])))
        if isinstance(ct, bytes):
            d = cnew(c, a, m, key, iv)
            r.call('c.dec', d, data=ct)
            r.note('check.rt', enc=e, dec=d)
    for a, m, z in c.mine([(a, m, z) for a in ALGS for m in ('cbc', 'cfb', 'ofb') for z in long_ivs(c)]):
        r.scenario('roundtrip long register %s %s %d' % (a, m, z))
        key, iv = c.rb(32), c.rb(z * BSZ[a])
        e, d = cnew(c, a, m, key, iv), cnew(c, a, m, key, iv)
        data = c.rb((z + rng.randrange(4)) * BSZ[a])
        cut = rng.randrange(len(data) // BSZ[a]) * BSZ[a]
        ct = r.call('c.enc', e, data=data)
        if isinstance(ct, bytes):
            r.call('c.dec', d, data=ct[:cut])
            r.call('c.dec', d, data=ct[cut:])
            r.note('check.rt', enc=e, dec=d)


# ---------------------------------------------------------------- C06
@family
def chunks(c):
    r, rng = c.r, c.rng
    hist = c.mine(c.hist['cipher'])
    for i, h in enumerate(hist):
        a, m = ALGS[i % 2], SMODE[(i // 2) % 5]
        run_cipher_history(c, a, m, h)
    for _ in range(c.q(200, 2000) // c.nsh + 1):
        a, m = rng.choice(ALGS), rng.choice(SMODE)
        h = [rng.choice(('w0', 'w1', 'w2', 'w3', 'w*', 'w*', 'attr', 'other')) for _ in range(rng.randrange(1, 9))] + [rng.choice(('r', 'w1'))]
        run_cipher_history(c, a, m, h)
    # counters over byte boundaries in pieces
    for a in ALGS:
        bs = BSZ[a]
        for m in c.mine(SMODE):
            r.scenario('chunk long %s %s' % (a, m))
            key, iv = c.rb(32), ivs(c, a, m)[-1]
            o = cnew(c, a, m, key, iv)
            o2 = cnew(c, a, m, key, iv)
            data = c.rb(530 * bs)
            p = 0
            while p < len(data):
                n = rng.choice((1, 2, 5, 64, 127)) * bs
                r.call('c.enc', o, data=c.ty(data[p:p + n]))
                if m == 'ctr':
                    r.call('c.counter', o)
                elif m != 'ecb':
                    r.call('c.iv', o)
                p += n
            r.call('c.enc', o2, data=data)
    for a, m, z in c.mine([(a, m, z) for a in ALGS for m in ('cbc', 'cfb', 'ofb') for z in long_ivs(c)]):
        r.scenario('chunks long register %s %s %d' % (a, m, z))
        bs, key = BSZ[a], c.rb(32)
        iv, data, d = c.rb(z * bs), c.rb((z + 3) * bs), rng.choice(('c.enc', 'c.dec'))
        o, o2 = cnew(c, a, m, key, iv), cnew(c, a, m, key, iv)
        p = 0
        while p < len(data):
            n = rng.choice((1, 2, z - 1, z, z + 1)) * bs
            r.call(d, o, data=c.ty(data[p:p + n]))
            r.call('c.iv', o)
            p += n
        r.call(d, o2, data=data)
        r.call('c.iv', o2)
    for a, m in c.mine([(a, m) for a in ALGS for m in SMODE]):
        r.scenario('chunks 64 KiB %s %s' % (a, m))
        bs, key, d = BSZ[a], c.rb(32), rng.choice(('c.enc', 'c.dec'))
        iv, data = ivs(c, a, m)[-1], c.rb(65536 + 4 * bs)
        o, o2 = cnew(c, a, m, key, iv), cnew(c, a, m, key, iv)
        cut = rng.choice((1, 100, len(data) // bs - 2)) * bs
        r.call(d, o, data=data[:cut])
        r.call(d, o, data=data[cut:])
        r.call(d, o2, data=data)


def run_cipher_history(c, a, m, h):
    r, rng = c.r, c.rng
    bs = BSZ[a]
    r.scenario('chunks %s %s %s' % (a, m, ' '.join(h)))
    key, iv = c.rb(32), rng.choice(ivs(c, a, m))
    dirs = ['c.enc', 'c.dec']
    d = dirs[rng.randrange(2)]
    o = cnew(c, a, m, key, iv, None)
    total = b''
    other = None

    def props(x):
        if m == 'ctr':
            r.call('c.counter', x)
        elif m != 'ecb':
            r.call('c.iv', x)
    props(o)
    for op in h:
        if op == 'attr':
            props(o)
            r.call('attr', o, attr='block_size')
        elif op == 'other':
            if other is None:
                other = cnew(c, a, rng.choice(SMODE), rng.choice((key, c.rb(32))), None)
            r.call('c.enc', other, data=c.rb(rng.randrange(3 * bs)))
        else:
            n = rng.randrange(1, bs) if op == 'r' else c.span(bs) // bs * bs if op == 'w*' else int(op[1:]) * bs
            if op == 'r' and d == 'c.dec' and m in ('ecb', 'cbc'):
                n = bs
            x = c.rb(n)
            r.call(d, o, data=c.ty(x))
            props(o)
            total += x
            if op == 'r':
                break
    o2 = cnew(c, a, m, key, iv, None)
    r.call(d, o2, data=total)
    props(o2)


# ---------------------------------------------------------------- C07
@family
def gamma(c):
    r, rng = c.r, c.rng
    for h in c.mine(c.hist['gamma']):
        for a in ALGS:
            m = ('ctr', 'ofb', 'cfb')[rng.randrange(3)]
            run_gamma(c, a, m, h)
    for _ in range(c.q(150, 1500) // c.nsh + 1):
        run_gamma(c, rng.choice(ALGS), rng.choice(('ctr', 'ofb', 'cfb')),
                  [rng.choice(('r1', 'r2', 'rm', 'w1', 'w2', 'w3', 'wr', 's*', 's*')) for _ in range(rng.randrange(2, 9))])
    if c.shard < 2:
        a = ALGS[1 - c.shard]
        bs = BSZ[a]
        r.scenario('gamma long')
        o = cnew(c, a, 'ctr', c.rb(32), c.rb(bs // 2))
        tot = 0
        while tot < c.q(700, 3000):
            n = rng.choice((1, 60, 128, 200))
            r.call('c.enc', o, data=Rep(0, n * bs + rng.choice((0, 0, 1, bs - 1))))
            r.call('c.counter', o)
            tot += n + 1
    if c.shard == 2:
        r.scenario('gamma 65536')
        o = cnew(c, 'magma', 'ctr', c.rb(32), c.rb(4))
        for n in (255, 1, 1, 65000, 600):
            r.call('c.enc', o, data=Rep(0, n * 8))
    if c.shard == 3 and c.deep:
        r.scenario('gamma 65536 kuznechik')
        o = cnew(c, 'kuznechik', 'ctr', c.rb(32), c.rb(8))
        for n in (255, 1, 1, 65000, 600):
            r.call('c.enc', o, data=Rep(0, n * 16))
    if c.shard in (4, 5):
        m = ('ofb', 'cfb')[c.shard - 4]
        for a in ALGS:
            r.scenario('gamma register')
            for z in (1, 2, 3):
                o = cnew(c, a, m, c.rb(32), c.rb(z * BSZ[a]))
                for n in (1, 2, 60, 200, c.q(100, 3000)):
                    r.call('c.enc', o, data=c.rb(n * BSZ[a]))


def run_gamma(c, a, m, h):
    r, rng = c.r, c.rng
    bs = BSZ[a]
    r.scenario('gamma %s %s %s' % (a, m, ' '.join(h)))
    key = c.rb(32)
    iv = c.rb(bs // 2) if m == 'ctr' else c.rb(bs * rng.choice((1, 1, 2, 3)))
    mixed = rng.random() < 0.3
    d = rng.choice(('c.enc', 'c.dec'))
    # the first piece may be ragged: a reference object is given the same and more, which shows the whole gamma block
    size = {'r1': 1, 'r2': 2, 'rm': bs - 1}

    def length(op):
        if op in size:
            return size[op]
        if op == 'wr':
            return bs * rng.randrange(1, 3) + rng.randrange(1, bs)
        if op == 's*':
            return c.span(bs)
        return int(op[1:]) * bs
    first = c.rb(length(h[0]))
    ref = cnew(c, a, m, key, iv)
    r.call(d, ref, data=first + c.rb(2 * bs))
    o = cnew(c, a, m, key, iv)
    r.call(d, o, data=first)
    for op in h[1:]:
        if m == 'ctr' and rng.random() < 0.3:
            r.call('c.counter', o)
        dd = rng.choice(('c.enc', 'c.dec')) if mixed else d
        r.call(dd, o, data=c.ty(c.rb(length(op))))


# ---------------------------------------------------------------- C08
@family
def mac_std(c):
    r, rng = c.r, c.rng
    for a in ALGS:
        bs = BSZ[a]
        keys = [c.rb(32) for _ in range(16)]
        for ln in c.mine(lens(bs, c.deep)):
            r.scenario('mac %s %d' % (a, ln))
            for j in range(c.q(3, 16)):
                o = r.new('c.new', alg=a, key=c.ty(keys[(ln + j * 5) % 16]), mode='mac', data=c.ty(c.rb(ln)))
                r.call('c.digest', o, n=rng.randrange(1, bs + 1))
                r.call('c.digest', o, n=bs)
                r.free(o)
        r.scenario('mac sizes')
        o = r.new('c.new', alg=a, key=c.rb(32), mode='mac', data=c.rb(rng.randrange(40)))
        for n in range(1, bs + 1):
            r.call('c.digest', o, n=n)
            r.call('c.hexdigest', o, n=n)
        r.scenario('mac keys')
        for _ in range(c.q(20, 200)):       # all branches of the subkey derivation
            o = r.new('c.new', alg=a, key=c.rb(32), mode='mac')
            r.call('c.digest', o, n=bs)
            r.call('c.update', o, data=c.rb(bs))
            r.call('c.digest', o, n=bs)
            r.free(o)
        for _ in range(c.q(2, 10)):
            r.scenario('mac neighbours')
            for v in c.variants(10, key=c.rb(32), data=c.rb(rng.randrange(1, 5 * bs))):
                o = r.new('c.new', alg=a, key=bytearray(v['key']), mode='mac', **({'data': c.ty(v['data'])} if rng.random() < 0.5 else {}))
                r.call('c.update', o, data=c.ty(v['data']))
                r.call('c.digest', o, n=bs)
    for i, h in enumerate(c.mine(c.hist['mac'])):
        a = ALGS[i % 2]
        run_mac_history(c, a, h)
    for _ in range(c.q(100, 1000) // c.nsh + 1):
        a = rng.choice(ALGS)
        run_mac_history(c, a, [rng.choice(('new', 'newB'))] + [rng.choice(('u0', 'u1', 'uB-', 'uB', 'uB+', 'u2B', 'u*', 'u*', 'u*', 'digest', 'hexdigest')) for _ in range(rng.randrange(3, 20))])
    for i, n in enumerate(c.mine(BIGPIECES)):
        for a in ALGS:
            bs = BSZ[a]
            r.scenario('mac large piece %s %d' % (a, n))
            for pend in sorted({0, 1 + (n + i) % bs, bs}):
                o = r.new('c.new', alg=a, key=c.rb(32), mode='mac', **({'data': c.ty(c.rb(pend))} if pend % 2 else {}))
                if not pend % 2:
                    r.call('c.update', o, data=c.ty(c.rb(pend)))
                r.call('c.update', o, data=c.ty(c.rb(n)))
                if pend == bs:
                    r.call('c.update', o, data=c.ty(c.rb(rng.randrange(1, 2 * bs))))
                r.call('c.digest', o, n=bs)
                r.free(o)
    if c.shard == 0:
        for a in ALGS:
            r.scenario('mac long')
            o = r.new('c.new', alg=a, key=c.rb(32), mode='mac')
            for n in (1000, 1, 15, 700):
                r.call('c.update', o, data=c.ty(c.rb(n)))
                r.call('c.digest', o, n=BSZ[a])


def run_mac_history(c, a, h):
    bs = BSZ[a]
    L = {'u0': 0, 'u1': 1, 'uB-': bs - 1, 'uB': bs, 'uB+': bs + 1, 'u2B': 2 * bs}
    c.r.scenario('mac history %s %s' % (a, ' '.join(h)))
    key = c.rb(32)
    kw = {}
    if h[0] == 'newB':
        kw['data'] = c.ty(c.rb(bs))
    o = c.r.new('c.new', alg=a, key=c.ty(key), mode='mac', **kw)
    for op in h[1:]:
        if op == 'digest':
            c.r.call('c.digest', o, n=c.rng.randrange(1, bs + 1))
        elif op == 'hexdigest':
            c.r.call('c.hexdigest', o, n=bs)
        else:
            c.r.call('c.update', o, data=c.ty(c.rb(L[op] if op in L else c.span(bs))))
    c.r.call('c.digest', o, n=bs)


# ---------------------------------------------------------------- C09
@family
def hmac_std(c):
    r, rng = c.r, c.rng
    for n in MN:
        for kl in c.mine(range(0, 65)):
            r.scenario('hmac key length %d' % kl)
            for ln in (0, 1, 63, 64, 65, rng.randrange(300)):
                o = r.new('m.new', name=n, key=c.ty(c.pattern(kl) if ln % 2 else c.rb(kl)))
                r.call('m.update', o, data=c.ty(c.rb(ln)))
                r.call('m.digest', o)
                r.free(o)
                o = r.new('m.new', name=n, key=c.ty(c.rb(kl)), data=c.ty(c.rb(ln)))
                r.call('m.digest', o)
                r.free(o)
        for _ in range(c.q(2, 10)):
            r.scenario('hmac neighbours')
            for v in c.variants(8, key=c.rb(rng.choice((1, 31, 32, 33, 63, 64))), data=c.rb(rng.choice((1, 30, 64, 100)))):
                o = r.new('m.new', name=n, key=bytearray(v['key']), **({'data': c.ty(v['data'])} if rng.random() < 0.5 else {}))
                r.call('m.update', o, data=c.ty(v['data']))
                r.call('m.digest', o)
    for i, n in enumerate(c.mine(BIGPIECES[1:])):
        r.scenario('hmac large piece %d' % n)
        o = r.new('m.new', name=MN[i % 2], key=c.rb(rng.choice((32, 64, 33))))
        r.call('m.update', o, data=c.ty(c.rb((n + i) % 67)))
        r.call('m.update', o, data=c.ty(c.rb(n)))
        r.call('m.update', o, data=c.ty(c.rb(n % 70)))
        r.call('m.digest', o)
        r.free(o)
    for i, h in enumerate(c.mine(c.hist['hash'] if c.deep else c.hist['hash'][::6])):
        h = [x for x in h if x != 'bad']
        r.scenario('hmac history ' + ' '.join(h))
        run_hash_history(c, h, MN[i % 2], r, 'm', key=c.rb(rng.choice((0, 5, 32, 63, 64))), oneshots=False)
    for _ in range(c.q(60, 600) // c.nsh + 1):
        h = ['new' + rng.choice(('', '1', '64'))] + [rng.choice(('u0', 'u1', 'u63', 'u64', 'u65', 'u130', 'u*', 'u*', 'digest', 'hexdigest', 'copy', 'switch', 'reset')) for _ in range(rng.randrange(3, 18))]
        r.scenario('hmac random history')
        run_hash_history(c, h, rng.choice(MN), r, 'm', key=c.rb(rng.randrange(65)), oneshots=False)


# ---------------------------------------------------------------- C10
@family
def pbkdf_std(c):
    r, rng = c.r, c.rng
    todo = [(pl, rng.choice((1, 4, 8, 16, 32, 64, 100)), rng.choice((1, 2, 3, 4)), rng.choice((1, 16, 32, 63, 64, 65, 127, 128, 129, 200))) for pl in range(0, 65) for _ in range(c.q(1, 5))]
    rng2 = random.Random(99)
    rng2.shuffle(todo)
    for pl, sl, it, n in c.mine(todo):
        r.scenario('pbkdf %d %d %d %d' % (pl, sl, it, n))
        p = r.new('p.new', password=c.ty(c.pattern(pl)), salt=c.ty(c.pattern(sl)), counter=it)
        r.call('p.derive', p, n=n)
        for _ in range(rng.randrange(0, 3)):
            r.call(rng.choice(('p.derive', 'p.hexderive')), p, n=rng.choice((1, 31, 64, 65, 128, 130)))
        r.call('p.salt', p)
    for it, n in c.mine([(50, 64), (100, 100), (255, 10), (256, 10), (257, 64), (1000, 64), (1001, 65), (7, 1000)] + ([(2000, 64), (5000, 20), (65536, 16)] if c.deep else [])):
        r.scenario('pbkdf iterations %d' % it)
        p = r.new('p.new', password=c.ty(c.rb(20)), salt=c.ty(c.rb(16)), counter=it)
        r.call('p.derive', p, n=n)
    # lengths in every order: each number of blocks after each other one
    top = c.q(6, 9)
    pairs = [(a, b) for a in range(1, top) for b in range(1, top)]
    rng.shuffle(pairs)
    for _ in c.mine(range(c.nsh)):
        r.scenario('pbkdf lengths in turn')
        p = r.new('p.new', password=c.ty(c.rb(rng.randrange(65))), salt=c.ty(c.rb(8)), counter=1)
        for ab in pairs[c.shard::c.nsh]:
            for nb in ab:
                r.call(rng.choice(('p.derive', 'p.hexderive')), p, n=nb * 64 - rng.choice((0, 0, 1, 33, 63)))
    for i, sl in enumerate(c.mine([60, 61, 63, 64, 65, 124, 125, 127, 128, 129, 192, 255, 256, 257, 300, 512, 1000, 1024, 2047, 4096, 5000])):
        r.scenario('pbkdf salt of %d bytes' % sl)
        p = r.new('p.new', password=c.ty(c.rb(rng.randrange(65))), salt=c.ty(c.rb(sl) if i % 2 else c.pattern(sl)), counter=1 + i % 3)
        r.call('p.derive', p, n=rng.choice((32, 64, 65, 130)))
        r.call('p.salt', p)
    for _ in range(c.q(1, 10)):
        r.scenario('pbkdf neighbours')
        for v in c.variants(8, password=c.rb(rng.randrange(1, 65)), salt=c.rb(rng.randrange(1, 40)), counter=rng.randrange(1, 4)):
            p = r.new('p.new', password=bytearray(v['password']), salt=c.ty(v['salt']), counter=v['counter'])
            r.call('p.derive', p, n=rng.choice((16, 64, 65)))
    if c.shard == 3 % c.nsh:
        r.scenario('pbkdf default iterations')
        p = r.new('p.new', password=c.rb(20), salt=c.rb(16))
        r.call('p.derive', p, n=20)
    if c.shard == 4 % c.nsh:
        r.scenario('pbkdf generated salt')
        p = r.new('p.new', password=c.rb(20), counter=2)
        r.call('p.salt', p)
        r.call('p.derive', p, n=100)
        p = r.new('p.new', password=c.rb(20), salt=b'', counter=2)
        r.call('p.salt', p)
        r.call('p.derive', p, n=100)
        p = r.new('p.new', password=c.rb(20), salt=bytearray(b''), counter=2)
        r.call('p.derive', p, n=100)
        r.call('p.salt', p)
        r.call('p.derive', p, n=100)
    if c.shard in (5 % c.nsh, 6 % c.nsh):
        r.scenario('pbkdf many blocks')
        nb = 258 if c.shard == 5 % c.nsh else 520
        p = r.new('p.new', password=c.rb(64), salt=c.rb(3), counter=1)
        n = nb * 64 - 7
        r.call('p.derive', p, n=n, sample=[(0, 64), (64 * 127, 64), (64 * 254, 64), (64 * 255, 64), (64 * 256, 64), (64 * (nb - 1), 57)])
        r.call('p.derive', p, n=30)
    if c.deep and c.shard == 7 % c.nsh:
        r.scenario('pbkdf 65537 blocks')
        p = r.new('p.new', password=c.rb(8), salt=c.rb(3), counter=1)
        r.limit = 700
        r.call('p.derive', p, n=65537 * 64, sample=[(0, 64), (64 * 65534, 64), (64 * 65535, 64), (64 * 65536, 64), (64 * 4095, 64)])


# ---------------------------------------------------------------- C11
@family
def drbg_std(c):
    r, rng = c.r, c.rng
    for ss in c.mine([32, 40, 48, 1, 8, 20, 55, 60, 61, 62, 47, 49]):
        for rs in (0, 1, 32, 63, 64, 65, 127, 128, 129, 200):
            r.scenario('drbg size_s %d rand_size %d' % (ss, rs))
            seed = rng.choice((c.rb(ss), c.rb(ss), bytes(ss - 1) + b'\1', b'\1' + bytes(ss - 1), b'\xff' * ss))
            kw = {} if ss == 48 and rng.random() < 0.5 else {'size_s': ss}
            g = r.new('r.new', rand_size=rs, seed=c.ty(seed), **kw)
            for _ in range(rng.randrange(1, 5)):
                r.call('r.random', g)
            if rng.random() < 0.5:
                r.call('r.reset', g, seed=c.ty(c.rb(ss)))
                for _ in range(2):
                    r.call('r.random', g)
            if rng.random() < 0.3:
                r.call('r.clear', g)
                r.call('r.random', g)
                r.call('r.reset', g, seed=c.ty(seed))
                r.call('r.random', g)
    for _ in range(c.q(2, 10)):
        r.scenario('drbg neighbours')
        ss = rng.choice((32, 48))
        for v in c.variants(6, seed=c.rb(ss - 1) + b'\3', rand_size=rng.choice((20, 64, 100))):
            g = r.new('r.new', rand_size=v['rand_size'], seed=bytearray(v['seed']), size_s=ss)
            r.call('r.random', g)
            r.call('r.reset', g, seed=bytearray(c.near(v['seed'])))
            r.call('r.random', g)
    for h in c.mine(c.hist['drbg']):
        ss = rng.choice((32, 40, 48, 62))
        r.scenario('drbg history ' + ' '.join(h))
        g = r.new('r.new', rand_size=rng.choice((1, 64, 65, 130)), seed=c.rb(ss), size_s=ss)
        for op in h:
            if op == 'random':
                r.call('r.random', g)
            elif op == 'reset':
                r.call('r.reset', g, seed=c.ty(c.rb(ss)))
            elif op == 'resetzero':
                r.call('r.reset', g, seed=bytes(ss))
            elif op == 'clear':
                r.call('r.clear', g)
            elif op == 'resetnone':
                r.call('r.reset', g)
    # exhaustion of a one-byte counter, one and several blocks at a time
    for rs in c.mine([64, 1, 128, 150, 192, 320, 64 * 255, 64 * 256, 64 * 254 + 1]):
        r.scenario('drbg exhaustion')
        g = r.new('r.new', rand_size=rs, seed=c.rb(62), size_s=62)
        per = (rs + 63) // 64
        for _ in range(255 // per + 3):
            r.call('r.random', g)
        r.call('r.reset', g, seed=c.rb(62))
        r.call('r.random', g)
    for ss in c.mine([48, 61, 32, 60, 55]):
        r.scenario('drbg long')
        g = r.new('r.new', rand_size=64 * 60 + 5, seed=c.rb(ss), size_s=ss)
        for _ in range(6):
            r.call('r.random', g, sample=[])
    if c.shard == 7 % c.nsh or c.shard in (0, 3) or c.deep and c.shard < 4:
        r.scenario('drbg 16-bit counter')
        ss = {7 % c.nsh: 61, 0: 60, 1: 48, 2: 40, 3: 32}.get(c.shard, 61)
        g = r.new('r.new', rand_size=64 * 4096, seed=c.rb(ss), size_s=ss)
        smp = [(0, 64), (64 * 254, 192), (64 * 4094, 128)]
        for _ in range(18 if ss == 61 else 17):
            r.call('r.random', g, sample=smp)
    r.scenario('drbg zero')
    for ss in (32, 48, 62):
        g = r.new('r.new', rand_size=64, seed=bytes(ss), size_s=ss)
        r.call('r.random', g)
        r.call('r.reset', g, seed=c.rb(ss))
        r.call('r.random', g)
        r.call('r.reset', g, seed=bytearray(ss))
        r.call('r.random', g)
