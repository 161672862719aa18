"""driver.py FAMILY TIER SHARD NSHARDS SEED OUT HIST: records one shard of a family of scenarios.

driver.py --replay FILE OUT: performs the calls of a recorded scenario again.
"""
import sys, os, json, random, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rec
from rec import Rec, SOURCE, Rep, Zygote


class Enough(BaseException):
    pass


class Guarded(Rec):
    """Stops after calls that did not return, or when the time for the shard is used up."""
    hangs = 0
    deadline = None

    def emit(self, ev):
        super().emit(ev)
        if ev.get('out', {}).get('t') == 'hang':
            self.hangs += 1
            if self.hangs >= 2:
                raise Enough()

    def scenario(self, label=''):
        if self.deadline and time.time() > self.deadline:
            raise Enough()
        super().scenario(label)


def arg(v):
    if isinstance(v, dict) and 't' in v:
        if v['t'] == 'ba':
            return bytearray(v['v'])
        if v['t'] == 'b':
            return bytes(v['v'])
        if v['t'] == 'rep':
            return Rep(v['b'], v['n'])
        return v.get('s')
    return v


def replay(path, out):
    r = Rec(out)
    r.zygote = Zygote()
    own = []

    def flush():
        if own:
            r.pristine([x[1:] for x in own])
            own.clear()
    for ev in json.load(open(path))['events']:
        op = ev['op']
        if own and ev.get('proc') != own[0][0]:
            flush()
        if op == 'scenario':
            r.scenario(ev.get('label', ''))
            continue
        if op.startswith('check.') or ev.get('ext'):
            r.emit(ev)
            continue
        if op == 'free':
            if 'proc' in ev:
                own.append((ev['proc'], 'free', ev['id'], {}))
            else:
                r.free(ev['id'])
            continue
        a = {k: arg(v) for k, v in ev.items() if k not in ('op', 'id', 'out', 'argsok', 'draws', 'text', 'proc')}
        if 'par' in a:
            a['par'] = {k: int.from_bytes(bytes(v), 'big') for k, v in a['par'].items()}
        if op == 'u.tobytes':
            a['num'] = int.from_bytes(bytes(a['num']), 'big')
        if a.get('rawmode') is not None:
            try:
                a['rawmode'] = eval(a['rawmode'], {})       # written by repr() in rec.py
            except Exception:
                pass
        if 'proc' in ev:
            own.append((ev['proc'], op, ev['id'], a))
            continue
        SOURCE.queue = [bytes(d) for d in ev.get('draws', [])]
        sample = None
        if ev['out'].get('t') == 'sampled':
            sample = [(p['at'], len(p['v'])) for p in ev['out']['parts']]
        r.call(op, ev.get('id'), sample=sample, **a)
    flush()
    r.close()


def main():
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2], sys.argv[3])
    fam, tier, shard, nsh, seed, out, hist = sys.argv[1:8]
    import scen_refuse
    from scen import FAMILIES, Ctx
    import gc
    gc.disable()
    SOURCE.rng = random.Random('%s %s %s %s' % (seed, fam, shard, tier))
    zygote = Zygote()
    r = Guarded(out)
    r.zygote = zygote
    if len(sys.argv) > 8:
        r.deadline = time.time() + float(sys.argv[8])
    c = Ctx(r, random.Random('%s/%s/%s/%s' % (seed, fam, shard, tier)), tier, int(shard), int(nsh), json.load(open(hist)))
    done = True
    try:
        FAMILIES[fam](c)
    except Enough:
        done = False
    r.close()
    print(json.dumps({'events': r.n, 'scenarios': r.scen, 'ops': r.counts, 'complete': done}))


main()
