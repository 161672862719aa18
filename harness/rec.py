"""Runs calls of the gostcrypto public interface and records them as trace events.

Nothing here judges a result: the events go to TLC, which checks them against the specification.
"""
import io, os, sys, json, pickle, random, signal, socket, threading, zlib

REPO = os.environ.get('GOST_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)


class Source:
    """Deterministic stand-in for os.urandom that records what it delivers."""

    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.queue = []
        self.local = threading.local()

    @property
    def draws(self):
        return self.local.__dict__.setdefault('draws', [])

    @draws.setter
    def draws(self, v):
        self.local.draws = v

    def __call__(self, n):
        v = None
        if self.queue:
            v = self.queue.pop(0)
            if len(v) != n:
                v = None
        if v is None:
            v = bytes(self.rng.getrandbits(8) for _ in range(n))
        self.draws.append(v)
        return v


SOURCE = Source(os.environ.get('VERIF_SEED', '1') + 'urandom')
os.urandom = SOURCE
os.getrandom = lambda n, flags=0: SOURCE(n)
random._urandom = SOURCE

from gostcrypto import gostcipher, gosthash, gosthmac, gostpbkdf, gostrandom, gostsignature, gostoid, utils as gutils  # noqa: E402

MODES = {'ecb': gostcipher.MODE_ECB, 'cbc': gostcipher.MODE_CBC, 'cfb': gostcipher.MODE_CFB,
         'ofb': gostcipher.MODE_OFB, 'ctr': gostcipher.MODE_CTR, 'mac': gostcipher.MODE_MAC}
PADS = {1: gostcipher.PAD_MODE_1, 2: gostcipher.PAD_MODE_2}
SMODES = {1: gostsignature.MODE_256, 2: gostsignature.MODE_512}
ODD = {'@None': None, '@int': 7, '@bytes': b'kuznechik', '@tuple': (), '@true': True, '@float': 1.5, '@upper': 'KUZNECHIK'}
BIG = 2147483647        # stands for a number just over the documented limit


class Rep:
    """n times byte b (kept short in the trace)."""

    def __init__(self, b, n):
        self.b, self.n = b, n


class Sampled:
    """Wrapper for an expected long result: only some slices go into the trace."""


def enc(v):
    """A Python argument as a trace value."""
    if isinstance(v, Rep):
        return {'t': 'rep', 'b': v.b, 'n': v.n}
    if isinstance(v, bytearray):
        return {'t': 'ba', 'v': list(v)}
    if isinstance(v, bytes):
        return {'t': 'b', 'v': list(v)}
    return {'t': 'other', 's': repr(v)[:40]}


def num(n):
    """Number as minimal big-endian bytes."""
    return list(n.to_bytes((n.bit_length() + 7) // 8, 'big'))


ABSENT = object()     # a helper that the package does not have (any more)


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


signal.signal(signal.SIGVTALRM, _alarm)

BYTE_ARGS = ('data', 'key', 'iv', 'password', 'salt', 'seed', 'digest', 'k', 'pub', 'sig')


class View:
    """Stands for a memoryview in a message."""

    def __init__(self, v):
        self.v = bytes(v)


class Zygote:
    """Processes in which nothing of the package has run yet: each request is served by a new one."""

    def __init__(self):
        self.up, down = socket.socketpair()
        if os.fork() == 0:
            self.up.close()
            try:
                self.serve(down.makefile('rwb'))
            finally:
                os._exit(0)
        down.close()
        self.f = self.up.makefile('rwb')

    def serve(self, f):
        while True:
            try:
                calls, proc = pickle.load(f)
            except EOFError:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    r = Rec(io.StringIO())
                    r.proc = proc
                    for op, oid, a in calls:
                        a = {k: memoryview(v.v) if isinstance(v, View) else v for k, v in a.items()}
                        if op == 'free':
                            r.free(oid)
                        else:
                            r.call(op, oid, **a)
                    ans = ('ok', r.f.getvalue(), r.counts)
                except BaseException as e:     # noqa: B902  reported to the parent
                    ans = ('failed', repr(e), {})
                pickle.dump(ans, f)
                f.flush()
                os._exit(0)
            os.waitpid(pid, 0)

    def run(self, calls, proc):
        hide = lambda v: View(v) if isinstance(v, memoryview) else v  # noqa: E731
        pickle.dump(([(op, oid, {k: hide(v) for k, v in a.items()}) for op, oid, a in calls], proc), self.f)
        self.f.flush()
        ans = pickle.load(self.f)
        if ans[0] != 'ok':
            raise RuntimeError(ans[1])
        return ans[1:]


class Rec:
    zygote = None
    proc = 0
    procs = 0

    def __init__(self, path, limit=60.0, mutate=False):
        self.f = open(path, 'w') if isinstance(path, str) else path
        self.objs = {}
        self.next_id = 0
        self.n = 0
        self.limit = limit
        self.scen = 0
        self.mutate = mutate
        self.counts = {}
        self.bytes = 0
        self.label = ''
        self.buffers = {}
        self.threaded = False
        self.lock = threading.RLock()

    def close(self):
        self.f.close()

    def emit(self, ev):
        if self.proc:
            ev['proc'] = self.proc
        s = json.dumps(ev, separators=(',', ':'))
        with self.lock:
            self.f.write(s + '\n')
            self.n += 1
            self.bytes += len(s)

    def scenario(self, label=''):
        self.scen += 1
        self.label = label
        self.objs = {}
        self.emit({'op': 'scenario', 'n': self.scen, 'label': label})

    def new_id(self):
        with self.lock:
            self.next_id += 1
            return self.next_id

    # ------------------------------------------------------------------
    def call(self, op, oid=None, sample=None, nomut=False, **a):
        """Performs op, records the event, returns (raw result or None)."""
        ev = {'op': op}
        if oid is not None:
            ev['id'] = oid
        raw = {}
        for k, v in a.items():
            if k in BYTE_ARGS:
                ev[k] = enc(v)
                raw[k] = bytes([v.b]) * v.n if isinstance(v, Rep) else self.reuse(k, v)
            else:
                ev[k] = repr(v) if k == 'rawmode' else v
                raw[k] = v
        if 'par' in ev:
            raw['par'] = a['par']
            ev['par'] = {k: num(v) for k, v in a['par'].items()}
        if op == 'u.tobytes':
            ev['num'] = num(a['num'])
        if op == 'o.new':
            ev['text'] = [ord(c) for c in a['s']]
        before = {k: bytes(raw[k]) for k in raw if isinstance(raw[k], bytearray)}
        SOURCE.draws = []
        res = None
        if op.split('.')[1:] and ev.get('id') is not None and not op.endswith('.new') and oid not in self.objs:
            out = {'t': 'noobj'}
        else:
            try:
                if self.threaded:                          # watched by together()
                    res = self.perform(op, oid, raw)
                else:
                    signal.setitimer(signal.ITIMER_VIRTUAL, self.limit)
                    try:
                        res = self.perform(op, oid, raw)
                    finally:
                        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
                out = self.outcome(op, res, sample, raw)
            except Hang:
                out = {'t': 'hang'}
            except Exception as e:     # recorded and judged by the specification
                out = {'t': 'err', 'cls': type(e).__name__, 'msg': str(e)}
        ev['argsok'] = all(bytes(raw[k]) == before[k] for k in before)
        if SOURCE.draws or op in ('s.sign', 'p.new', 'r.new', 'r.reset'):
            ev['draws'] = [list(d) for d in SOURCE.draws]
        ev['out'] = out
        self.emit(ev)
        with self.lock:
            self.counts[op] = self.counts.get(op, 0) + 1
        ret = bytes(res) if isinstance(res, (bytes, bytearray)) else res
        if self.mutate and not nomut:
            for k in before:
                for i in range(len(raw[k])):
                    raw[k][i] ^= 0xa5
            if isinstance(res, bytearray):
                for i in range(len(res)):
                    res[i] ^= 0x5a
        return ret

    def reuse(self, name, v):
        """Most bytearrays arrive in a buffer that carried an earlier argument, as in a program that reads into one."""
        if not isinstance(v, bytearray) or self.threaded or zlib.crc32(v) % 4 == 0:
            return v
        b = self.buffers.setdefault((name, len(v)), v)
        b[:] = v
        return b

    def note(self, op, **a):
        ev = {'op': op, 'out': {'t': 'none'}}
        ev.update(a)
        self.emit(ev)

    def outcome(self, op, r, sample, raw):
        if r is ABSENT:
            return {'t': 'absent'}
        if op == 'attr':
            if raw['attr'] == 'oid':
                return {'t': 'oid', 's': str(r), 'text': [ord(c) for c in str(r)], 'name': r.name,
                        'digit': [num(x) for x in r.digit], 'octet': list(r.octet)}
            return {'t': 'attr', 's': '%s %s' % (type(r).__name__, r)}
        if op == 'o.name':
            return {'t': 'name', 's': str(r)}
        if op == 'o.digit':
            if type(r) is tuple and all(type(x) is int and x >= 0 for x in r):
                return {'t': 'nums', 'v': [num(x) for x in r]}
            return {'t': 'other', 's': repr(r)[:60]}
        if op == 's.builtin':
            return {'t': 'params', 'p': {k: num(v) for k, v in r.items()}}
        if isinstance(r, bool):
            return {'t': 'bool', 'b': r}
        if op.startswith('u.') and isinstance(r, int) and r >= 0:
            return {'t': 'num', 'v': num(r)}
        if isinstance(r, (bytes, bytearray)):
            if sample and len(r) > 4096:
                return {'t': 'sampled', 'len': len(r),
                        'parts': [{'at': o, 'v': list(r[o:o + n])} for o, n in sample]}
            return {'t': 'bytes', 'v': list(r)}
        if isinstance(r, str):
            return {'t': 'str', 'v': [ord(c) for c in r]}
        if r is None:
            return {'t': 'none'}
        if isinstance(r, int):
            return {'t': 'int', 's': str(r)}
        return {'t': 'obj'}

    # ------------------------------------------------------------------
    def perform(self, op, oid, a):
        fam, what = op.split('.', 1) if '.' in op else (op, '')
        if op.endswith('.new'):
            o = self.construct(fam, a)
            self.objs[oid] = o
            return o
        if fam == 'u':
            d = a.get('data')
            name, args = {'toint': ('bytearray_to_int', (d,)), 'tobytes': ('int_to_bytearray', (a.get('num'), a.get('n'))),
                          'xor': ('add_xor', (d, a.get('key'))), 'compare': ('compare', (d, a.get('key'))),
                          'iszero': ('compare_to_zero', (d,)), 'msb': ('msb', (d,)), 'zero': ('zero_fill', (d,)),
                          'check': ('check_value', (d, a.get('n')))}[what]
            if not hasattr(gutils, name):
                return ABSENT
            return getattr(gutils, name)(*args)
        if op == 's.builtin':
            return gostsignature.CURVES_R_1323565_1_024_2019[a['curve']]
        if op == 'free':
            self.objs.pop(oid, None)
            return None
        o = self.objs[oid]
        if op == 'attr':
            return getattr(o, a['attr'])
        if what == 'copy':
            c = o.copy()
            self.objs[a['to']] = c
            return c
        if fam == 'o':
            return str(o) if what == 'text' else getattr(o, what)
        if fam == 'b':
            return {'enc': lambda: o.encrypt(a['data']), 'dec': lambda: o.decrypt(a['data']), 'clear': o.clear}[what]()
        if fam == 's':
            if what == 'sign':
                if 'k' in a:
                    return o.sign(a['key'], a['digest'], a['k'])
                return o.sign(a['key'], a['digest'])
            if what == 'verify':
                return o.verify(a['pub'], a['digest'], a['sig'])
            return o.public_key_generate(a['key'])
        if what in ('iv', 'counter', 'salt'):
            return getattr(o, what)
        if what == 'enc':
            return o.encrypt(a['data'])
        if what == 'dec':
            return o.decrypt(a['data'])
        if what == 'update':
            return o.update(a['data'])
        if what == 'random':
            return o.random()
        if fam == 'r' and what == 'reset':
            return o.reset(a['seed']) if 'seed' in a else o.reset()
        if what in ('derive', 'hexderive') or (what in ('digest', 'hexdigest') and 'n' in a):
            n = a['n']
            if n == BIG:
                n = (2 ** 32 - 1) * 64 + 1
            return getattr(o, what)(n)
        return getattr(o, what)()

    def construct(self, fam, a):
        g = lambda v: ODD.get(v, v) if isinstance(v, str) else v  # noqa: E731
        if fam == 'h':
            kw = {'data': a['data']} if 'data' in a else {}
            return gosthash.new(g(a['name']), **kw)
        if fam == 'm':
            kw = {'data': a['data']} if 'data' in a else {}
            return gosthmac.new(g(a['name']), a['key'], **kw)
        if fam == 'b':
            cls = gostcipher.GOST34122015Kuznechik if a['alg'] == 'kuznechik' else gostcipher.GOST34122015Magma
            return cls(a['key'])
        if fam == 'c':
            kw = {}
            if 'iv' in a:
                kw['init_vect'] = a['iv']
            if 'pad' in a:
                kw['pad_mode'] = PADS.get(a['pad'], a['pad'])
            if 'data' in a:
                kw['data'] = a['data']
            return gostcipher.new(g(a['alg']), a['key'], MODES.get(a['mode'], a.get('rawmode', g(a['mode']))), **kw)
        if fam == 'p':
            kw = {}
            if 'salt' in a:
                kw['salt'] = a['salt']
            if 'counter' in a:
                kw['counter'] = a['counter']
            return gostpbkdf.new(a['password'], **kw)
        if fam == 'r':
            kw = {}
            if 'seed' in a:
                kw['rand_k'] = a['seed']
            if 'size_s' in a:
                kw['size_s'] = a['size_s']
            return gostrandom.new(a['rand_size'], **kw)
        if fam == 's':
            c = gostsignature.CURVES_R_1323565_1_024_2019[a['curve']] if 'curve' in a else {k: int(str(v)) if type(v) is int else v for k, v in a['par'].items()}      # numbers of its own: no two are one object
            return gostsignature.new(SMODES.get(a['mode'], a['mode']), c)
        if fam == 'o':
            return gostoid.ObjectIdentifier(a['s'])
        raise KeyError(fam)

    def pristine(self, calls):
        """Performs the calls (op, id, arguments) in a process of their own, in which nothing ran before."""
        self.procs += 1
        text, counts = self.zygote.run(calls, self.procs)
        self.f.write(text)
        self.n += text.count('\n')
        self.bytes += len(text)
        for k, v in counts.items():
            self.counts[k] = self.counts.get(k, 0) + v

    def together(self, scripts):
        """Runs the scripts (iterators that make calls on objects of their own) in one thread each."""
        errors = []

        def run(s, gate):
            gate.wait()
            try:
                for _ in s:
                    pass
            except BaseException as e:     # noqa: B902  a failure of the harness, not of the code under test
                errors.append(e)
        gate = threading.Barrier(len(scripts))
        ts = [threading.Thread(target=run, args=(s, gate), daemon=True) for s in scripts]
        was = sys.getswitchinterval()
        self.threaded = True
        sys.setswitchinterval(1e-6)
        try:
            for t in ts:
                t.start()
            for t in ts:
                t.join(4 * self.limit)
        finally:
            sys.setswitchinterval(was)
            self.threaded = False
        if errors:
            raise errors[0]
        if any(t.is_alive() for t in ts):
            self.emit({'op': 'h.new', 'id': self.new_id(), 'name': 'streebog256', 'argsok': True, 'out': {'t': 'hang'}})

    # ---- shorthands ---------------------------------------------------
    def new(self, op, **a):
        i = self.new_id()
        self.call(op, i, **a)
        return i

    def free(self, *ids):
        for i in ids:
            self.objs.pop(i, None)
            self.emit({'op': 'free', 'id': i, 'out': {'t': 'none'}})
