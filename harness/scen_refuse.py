"""Scenario family of C22: refused calls leave everything as it was."""
from scen_rel import *

BADN = (0, -1, -2, 64, 1000, -100, 255)
CANCLEAR = ('c.enc', 'c.dec', 'c.update')


def bad_call(c, steps):
    """A call with invalid arguments for the object that the steps make."""
    rng = c.rng
    op, kw = steps[0]
    b = rng.choice(BADTYPES)
    if op in ('h.new', 'm.new'):
        return op[0] + '.update', {'data': b}
    if op == 'c.new' and kw['mode'] == 'mac':
        if rng.random() < 0.5:
            return 'c.update', {'data': b}
        return rng.choice(('c.digest', 'c.hexdigest')), {'n': rng.choice(BADN + (BSZ[kw['alg']] + 1,))}
    if op == 'c.new':
        return rng.choice(('c.enc', 'c.dec')), {'data': b}
    if op == 'p.new':
        return rng.choice(('p.derive', 'p.hexderive')), {'n': rng.choice((0, -1, -64, -1000, BIG))}
    if op == 'r.new':
        ss = kw.get('size_s', 48)
        ln = rng.choice([x for x in (1, 8, ss - 1, ss + 1, 2 * ss, 32, 48, 62, 63, 64) if x != ss])
        return 'r.reset', {'seed': rng.choice((b, c.rb(ln), bytes(ln)))}
    if op == 's.new':
        return bad_sig(c, kw['curve'], kw['mode'])
    return None


def bad_sig(c, curve, mode):
    rng = c.rng
    w = ec.weierstrass(TAB[curve])
    size, q = size_of(mode), w['q']
    b = rng.choice(BADTYPES)
    ln = rng.choice([x for x in (0, 1, size - 1, size + 1, 96 - size, 2 * size - 1, 2 * size + 1, 3 * size) if x not in (size, 2 * size)])
    key = rng.choice((b, c.rb(ln), bytes(size), b2(q, size)))
    dg = rng.choice((b, c.rb(ln)))
    what = rng.choice(('key', 'digest', 'k', 'pub', 'pkey', 'vdigest', 'sig'))
    good = dict(key=b2(rng.randrange(1, q), size), digest=c.rb(size), k=b2(rng.randrange(1, q), size))
    if what in ('key', 'digest', 'k'):
        v = {'key': key, 'digest': dg, 'k': rng.choice((b, bytes(size), b2(q, size), b'\xff' * size))}[what]
        return 's.sign', dict(good, **{what: v})
    if what == 'pkey':
        return 's.pub', {'key': key}
    d = rng.randrange(1, q)
    Q = ec.mul(w, d, (w['x'], w['y']))
    gv = dict(pub=b2(Q[0], size) + b2(Q[1], size), digest=good['digest'], sig=c.rb(2 * size))
    return 's.verify', dict(gv, **{{'vdigest': 'digest'}.get(what, what): dg if what == 'vdigest' else rng.choice((b, c.rb(ln)))})


def bad_new(c, steps):
    """A constructor call that is refused, like that of the steps as far as possible."""
    rng = c.rng
    op, kw = steps[0]
    kw = dict(kw)
    b = rng.choice(BADTYPES)
    if op in ('h.new', 'm.new'):
        what = rng.choice(('name', 'data') + (('key',) if op == 'm.new' else ()))
        kw[what] = rng.choice(BADNAMES) if what == 'name' else b if what == 'data' else rng.choice((b, c.rb(65), c.rb(128)))
    elif op == 'c.new':
        what = rng.choice(('alg', 'key') + (() if kw['mode'] in ('ecb', 'mac') else ('iv',)) + (('pad',) if kw['mode'] in ('ecb', 'cbc') else ()))
        kw[what] = {'alg': rng.choice(BADNAMES), 'key': rng.choice((b, c.rb(31), c.rb(33), b'')), 'iv': rng.choice((b, b'', c.rb(5), c.rb(17))), 'pad': rng.choice((0, 3, -1))}[what]
    elif op == 'p.new':
        what = rng.choice(('password', 'salt'))
        kw[what] = b if what == 'salt' else rng.choice((b, c.rb(65)))
    elif op == 'r.new':
        kw['seed'] = rng.choice((b, c.rb(len(kw['seed']) + 1), c.rb(len(kw['seed']) - 1)))
    elif op == 's.new':
        kw['mode'] = rng.choice((0, 3, -1, 3 - kw['mode']))
    else:
        return None
    return op, kw


def script_oid(c):
    good = c.rng.choice(oid_values(c))
    return Script('oid', [('o.new', {'s': good})] + [(c.rng.choice(('o.octet', 'o.digit', 'o.name', 'o.text')), {}) for _ in range(4)])


def spoil(c, steps, n, maxamb=2):
    """The steps with n refused calls put in, and the positions of those that may have cleared the object."""
    rng = c.rng
    marks, amb = {}, []
    for _ in range(n):
        at = rng.randrange(1, len(steps) + 1)
        if rng.random() < 0.25:
            x = bad_new(c, steps)
        else:
            x = bad_call(c, steps)
            if x and x[0] in CANCLEAR:
                if len(amb) >= maxamb:
                    continue
                amb.append(at)
        if x:
            marks.setdefault(at, []).append(x)
    return marks, sorted(set(amb))


def play(c, steps, marks=None, clears=(), wrap=bytes):
    """Runs the steps on a new object, with refused calls (marks) or clearings before the steps at these positions."""
    r = c.r
    objs = []
    conv = lambda d: {k: (wrap(v) if isinstance(v, (bytes, bytearray)) else v) for k, v in d.items()}  # noqa: E731
    for i in range(len(steps) + 1):
        if i in clears:
            r.call('c.clear', objs[0])
        for op, kw in (marks or {}).get(i, ()):
            if op.endswith('.new'):
                x = r.new(op, bad=True, **conv(kw))
                r.objs.pop(x, None)
            else:
                for o in objs if c.rng.random() < 0.5 else [c.rng.choice(objs)]:
                    r.call(op, o, bad=True, **conv(kw))
        if i == len(steps):
            break
        op, kw = steps[i]
        a = conv(kw)
        tgt = a.pop('on', 0)
        if op.endswith('.new'):
            objs.append(r.new(op, **a))
        elif op.endswith('.copy'):
            to = r.new_id()
            r.call(op, objs[tgt], to=to)
            objs.append(to)
        else:
            r.call(op, objs[tgt], **a)
        yield
    for o in objs:
        r.free(o)


def run_all(g):
    for _ in g:
        pass


def references(c, steps, amb):
    """The same steps without refused calls; cleared, at every combination of the places where that may have happened."""
    for m in range(1 << len(amb)):
        run_all(play(c, steps, clears=[amb[j] for j in range(len(amb)) if m >> j & 1]))


def firsts(c, steps):
    """The steps in a new process, and again in one where refused constructors and calls came first."""
    c.r.pristine(listed(c, steps)[0])
    for _ in range(2):
        pre = []
        for _ in range(c.rng.choice((1, 2, 4))):
            x = bad_new(c, steps)
            if x:
                pre.append((x[0], c.r.new_id(), dict(x[1], bad=True)))
        calls, objs = listed(c, steps, bytearray)
        other, oo = listed(c, steps[:1])
        y = bad_call(c, steps)
        if y and c.rng.random() < 0.5:
            pre += other + [(y[0], oo[0], dict(y[1], bad=True)), ('free', oo[0], {})]
        c.r.pristine(pre + calls)


def tail(c, steps):
    """Calls at the end that show the state."""
    op, kw = steps[0]
    if op == 'c.new' and kw['mode'] == 'mac':
        return [('c.update', {'data': c.rb(20)}), ('c.digest', {'n': BSZ[kw['alg']]})]
    if op == 'c.new':
        p = [] if kw['mode'] == 'ecb' else [('c.counter' if kw['mode'] == 'ctr' else 'c.iv', {})]
        return p + [('c.enc', {'data': c.rb(BSZ[kw['alg']] * 3)})] + p + [('c.dec', {'data': c.rb(BSZ[kw['alg']] * 2)})]
    if op == 'r.new':
        return [('r.random', {}), ('r.random', {})]
    if op == 'p.new':
        return [('p.salt', {}), ('p.derive', {'n': 70})]
    return []


@family
def refuse(c):
    r, rng = c.r, c.rng
    makers = [lambda: script_hash(c), lambda: script_hash(c, c.rb(rng.choice((0, 5, 32, 64)))), lambda: script_mac(c, c.rb(32)), lambda: script_pbkdf(c, c.rb(rng.choice((0, 8, 64)))),
              lambda: script_drbg(c, c.rb(rng.choice((32, 48, 62)))), lambda: script_oid(c)] + [(lambda m: lambda: script_cipher(c, c.rb(32), m))(m) for m in SMODE]
    rep = 0
    for _ in range(c.q(14, 150)):
        for mk in makers + ([lambda: script_sig(c, rng.choice(CURVES) if c.deep else None)] if rep % 4 == 0 else []):
            rep += 1
            r.scenario('refused calls')
            steps = mk().steps
            steps = steps + tail(c, steps)
            marks, amb = spoil(c, steps, rng.choice((1, 1, 2, 3, 5)))
            references(c, steps, amb)
            for wrap in (bytes, bytearray):
                run_all(play(c, steps, marks, wrap=wrap))
    # every position, and every kind of wrong value, for one short history of every kind
    for j, mk in enumerate(makers):
        if j % c.nsh != c.shard and not c.deep:
            continue
        for _ in range(c.q(1, 4)):
            steps = mk().steps[:6]
            steps = steps + tail(c, steps)
            for at in range(1, len(steps) + 1):
                r.scenario('refused call at %d' % at)
                x = bad_call(c, steps)
                if x is None:
                    continue
                references(c, steps, [at] if x[0] in CANCLEAR else [])
                for _ in range(3):
                    run_all(play(c, steps, {at: [x]}))
                    y = bad_call(c, steps)
                    x = y if (y[0] in CANCLEAR) == (x[0] in CANCLEAR) else x
    # refused calls on one object, the others go on
    for _ in range(c.q(12, 150)):
        r.scenario('refused calls elsewhere')
        key = c.rb(32)
        ms = [lambda: script_hash(c), lambda: script_hash(c, key), lambda: script_cipher(c, key), lambda: script_mac(c, key), lambda: script_pbkdf(c, key), lambda: script_drbg(c, c.rb(48)), lambda: script_oid(c)]
        if rng.random() < 0.3:
            ms.append(lambda: script_sig(c))
        runs, vict = [], []
        for mk in rng.sample(ms, 3):
            steps = mk().steps
            references(c, steps, [])
            runs.append(play(c, steps, wrap=bytearray))
            marks, _ = spoil(c, steps, 4, maxamb=9)
            vict.append(play(c, steps[:1] + [s for s in steps[1:] if s[0].endswith('.copy')], {1: sum(marks.values(), [])}, wrap=bytearray))
        interleave(c, runs + vict)
    # refused calls as the first things that happen in a process
    for _ in range(c.q(3, 30)):
        for mk in makers + [lambda: script_sig(c, rng.choice(CURVES))]:
            r.scenario('refused at first')
            steps = mk().steps
            steps = steps[:5] + tail(c, steps)
            firsts(c, steps)
    # a curve that is refused, then the same one asked for rightly
    for n in c.mine(CURVES):
        mode = 1 if n in C256 else 2
        size = size_of(mode)
        w = ec.weierstrass(TAB[n])
        key, dg, k = c.rb(size), c.rb(size), b2(rng.randrange(1, w['q']), size)
        if int.from_bytes(key, 'big') % w['q'] == 0:
            continue
        r.scenario('refused curve')
        steps = [('s.new', dict(mode=mode, curve=n)), ('s.sign', dict(key=key, digest=dg, k=k)), ('s.pub', dict(key=key))]
        references(c, steps, [])
        for m in (3 - mode, 0):
            x = r.new('s.new', mode=m, curve=n, bad=True)
            r.objs.pop(x, None)
        for _ in range(2):
            run_all(play(c, steps, {1: [bad_sig(c, n, mode) for _ in range(3)], 2: [bad_sig(c, n, mode)]}))


# ---------------------------------------------------------------- C23
@family
def helpers(c):
    """The helpers of gostcrypto.utils."""
    r, rng = c.r, c.rng

    def pair(a, b):
        for x, y in ((a, b), (b, a)):
            r.call('u.compare', data=c.ty(x), key=c.ty(y))
            r.call('u.xor', data=c.ty(x), key=c.ty(y))

    def one(d):
        r.call('u.iszero', data=c.ty(d))
        v = r.call('u.toint', data=c.ty(d))
        r.call('u.zero', data=c.ty(d))
        if d:
            r.call('u.msb', data=c.ty(d))
        for n in {len(d), len(d) + 1, max(0, len(d) - 1), rng.randrange(200)}:
            r.call('u.check', data=c.ty(d), n=n)
        if type(v) is int and v >= 0:
            for k in {len(d), len(d) + 1, len(d) + rng.randrange(20), (v.bit_length() + 7) // 8}:
                r.call('u.tobytes', num=v, n=k)
    for n in c.mine(list(range(0, c.q(140, 300))) + [256, 512, 1000]):
        r.scenario('helpers %d' % n)
        for d in [bytes(n), b'\xff' * n] + [c.pattern(n) for _ in range(c.q(4, 16))]:
            one(d)
            pair(d, d)
            pair(d, c.near(d))
            pair(d, c.rb(n))
            pair(d, d + c.rb(rng.randrange(1, 20)))
            pair(d, d[:n - 1])
            pair(d, d + b'\0')
        for _ in range(c.q(3, 12)):
            if n < 2:
                break
            # differences that add up to a multiple of a power of two, or cancel
            z = bytearray(n)
            for i in rng.sample(range(n), min(n, rng.choice((2, 2, 4, 16)))):
                z[i] = rng.choice((128, 128, 64, 255, 1))
            i, j = rng.sample(range(n), 2)
            y = bytearray(n)
            y[i] = rng.randrange(1, 256)
            y[j] = rng.choice((y[i], 256 - y[i]))
            for t in (z, y):
                one(bytes(t))
                d = c.rb(n)
                pair(d, bytes(p ^ q for p, q in zip(d, t)))
        for i in (range(n) if c.deep or n < 40 else rng.sample(range(n), 8)):
            t = bytearray(n)
            t[i] = 1 << rng.randrange(8)
            one(bytes(t))
    r.scenario('helper types')
    for b in BADTYPES:
        for n in (0, 1, 2, 3, 4, 32):
            r.call('u.check', data=b, n=n)
