#!/usr/bin/env python3
"""How much the trace specifications notice: one recorded result per scenario is falsified, and TLC must object.

  CHECK_NOMODELS=1 CHECK_KEEP=DIR python3 check.py ID     (records traces of the real code)
  python3 tools/corrupt.py DIR/FAMILY.K.ndjson MODULE KIND [ROUNDS]

Prints, per operation and falsification, how many were noticed.  Scenarios with one observation of a function cannot
be contradicted by a relational specification: those are expected to go unnoticed there, and only there.
"""
import collections, json, os, random, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.argv, args = ['check.py', '--none'], sys.argv[1:]


def falsify(rng, ev, kind):
    """A changed copy of the event and the name of the change, or None."""
    e = json.loads(json.dumps(ev))
    o = e['out']
    how = []
    if o.get('t') in ('bytes', 'str') and o.get('v'):
        how += ['bit', 'bit', 'short', 'long']
    if o.get('t') == 'bool':
        how += ['not', 'not']
    if o.get('t') == 'err':
        how += ['class', 'text', 'silent']
    if o.get('t') in ('none', 'obj'):
        how += ['error']
    if e.get('argsok') and kind in ('iso', 'refuse'):
        how += ['buffer']
    if not how:
        return None
    h = rng.choice(how)
    if h == 'bit':
        j = rng.randrange(len(o['v']))
        o['v'][j] ^= 1 << rng.randrange(7) if o['t'] == 'bytes' else 1
    elif h == 'short':
        o['v'] = o['v'][:-1]
    elif h == 'long':
        o['v'] = o['v'] + [o['v'][-1]]
    elif h == 'not':
        o['b'] = not o['b']
    elif h == 'class':
        o['cls'] = 'ValueError'
    elif h == 'text':
        o['msg'] = o['msg'] + '.'
    elif h == 'silent':
        e['out'] = {'t': 'none'}
    elif h == 'error':
        e['out'] = {'t': 'err', 'cls': 'TypeError', 'msg': 'x'}
    elif h == 'buffer':
        e['argsok'] = False
    return e, h


def main():
    trace, module, kind = args[:3]
    rounds = int(args[3]) if len(args) > 3 else 3
    src = open(os.path.join(HERE, 'check.py')).read().replace('sys.exit(main())', '')
    ns = {'__file__': os.path.join(HERE, 'check.py'), '__name__': 'check'}
    exec(compile(src, 'check.py', 'exec'), ns)
    os.environ['ALLBAD'] = '1'
    ns['setup']()
    evs = [json.loads(x) for x in open(trace)]
    starts = [i for i, e in enumerate(evs) if e['op'] == 'scenario'] + [len(evs)]
    seen, miss, ex = collections.Counter(), collections.Counter(), {}
    for rd in range(rounds):
        rng = random.Random('%s %d' % (trace, rd))
        scratch = tempfile.mkdtemp(prefix='gostcorrupt.')
        try:
            out, done = list(evs), []
            for a, b in zip(starts, starts[1:]):
                cand = [i for i in range(a + 1, b) if 'out' in evs[i] and evs[i]['op'] != 'free' and not evs[i]['op'].startswith('check.')]
                rng.shuffle(cand)
                for i in cand[:5]:
                    f = falsify(rng, evs[i], kind)
                    if f:
                        out[i] = f[0]
                        done.append((i, b, f[1]))
                        break
            t = os.path.join(scratch, 't.ndjson')
            with open(t, 'w') as w:
                for e in out:
                    w.write(json.dumps(e) + '\n')
            bad, known, n, _ = ns['judge'](module, kind, t, scratch, 900)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        pos = {p - 1 for p, _ in bad}
        if n < len(evs):
            print('stopped at', n)
        for i, b, h in done:
            if i >= n:
                continue
            seen[(evs[i]['op'], h)] += 1
            if not any(i <= p < b for p in pos):
                miss[(evs[i]['op'], h)] += 1
                ex.setdefault((evs[i]['op'], h), (i + 1, evs[i]))
    for k in sorted(seen):
        print('%-14s %-7s %4d falsified, %4d noticed%s' % (k[0], k[1], seen[k], seen[k] - miss[k],
              '   e.g. line %d %s' % (ex[k][0], json.dumps(ex[k][1])[:160]) if miss[k] else ''))
    print('total: %d falsified, %d noticed' % (sum(seen.values()), sum(seen.values()) - sum(miss.values())))


main()
