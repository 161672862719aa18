#!/usr/bin/env python3
"""check.py ID [quick|thorough]   decides one property on /repo's working tree
check.py --replay FILE          runs the calls of a reported violation again
check.py --setup                compiles the TLC overrides
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, 'spec')
CLASSES = os.path.join(HERE, 'build', 'classes')
TLA = '/opt/veriftools/tla/tla2tools.jar'
CP = ':'.join([CLASSES, TLA, '/opt/veriftools/tla/CommunityModules-deps.jar'])
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
NSH = 8
LIMIT = {'quick': 780, 'thorough': 10800}

# property: families of scenarios (family, trace specification, kind), models, histories
STD, REL = 'TraceStd', 'Relational'
CHECKS = {
    'C01': dict(runs=[('hash_std', STD, '')], models=['MC_Hash', 'MC_Prims']),
    'C02': dict(runs=[('hash_inc', REL, 'inc')], models=['MC_Hash'], hist=['hash']),
    'C03': dict(runs=[('block_std', STD, '')], models=['MC_Prims']),
    'C04': dict(runs=[('modes_std', STD, '')], models=['MC_Modes', 'MC_Prims']),
    'C05': dict(runs=[('roundtrip', REL, 'stream')], models=['MC_Modes']),
    'C06': dict(runs=[('chunks', REL, 'stream')], models=['MC_Modes'], hist=['cipher']),
    'C07': dict(runs=[('gamma', REL, 'gamma')], models=['MC_Modes'], hist=['gamma']),
    'C08': dict(runs=[('mac_std', STD, '')], models=['MC_Mac', 'MC_Prims'], hist=['mac']),
    'C09': dict(runs=[('hmac_std', STD, '')], models=['MC_Hmac', 'MC_Prims'], hist=['hash']),
    'C10': dict(runs=[('pbkdf_std', STD, '')], models=['MC_Pbkdf', 'MC_Prims']),
    'C11': dict(runs=[('drbg_std', STD, '')], models=['MC_Drbg', 'MC_Prims'], hist=['drbg']),
    'C12': dict(runs=[('sign_std', STD, '')], models=['MC_Curve', 'MC_Gost3410']),
    'C13': dict(runs=[('verify_std', STD, '')], models=['MC_Curve', 'MC_Gost3410']),
    'C14': dict(runs=[('pub_std', STD, '')], models=['MC_Curve', 'MC_Gost3410']),
    'C15': dict(runs=[('curve_std', STD, '')], models=['MC_Curve', 'MC_Gost3410']),
    'C16': dict(runs=[('err', REL, 'err')], models=['MC_Life']),
    'C17': dict(runs=[('iso', REL, 'iso')], models=['MC_Life'], hist=['hash']),
    'C18': dict(runs=[('clear', REL, 'clear'), ('clear_iso', REL, 'iso')], models=['MC_Life']),
    'C19': dict(runs=[('oid_std', STD, '')], models=['MC_Oid'], hist=['oids']),
    'C20': dict(runs=[('fresh', REL, 'fresh')], models=['MC_Rng']),
    'C21': dict(runs=[('attr', REL, 'attr')], models=['MC_Life'], hist=['hash']),
    'C22': dict(runs=[('refuse', REL, 'refuse')], models=['MC_Refuse', 'MC_Life']),
    'C23': dict(runs=[('helpers', STD, '')], models=['MC_Utils']),
}
DEPTH = {'quick': {'hash': 4, 'cipher': 4, 'gamma': 3, 'mac': 4, 'drbg': 4},
         'thorough': {'hash': 5, 'cipher': 5, 'gamma': 4, 'mac': 5, 'drbg': 5}}


class Broken(Exception):
    """The machinery failed: neither held nor violated."""


def setup():
    os.makedirs(CLASSES, exist_ok=True)
    src = sorted(os.path.join(HERE, 'java', f) for f in os.listdir(os.path.join(HERE, 'java')) if f.endswith('.java'))
    newest = max(os.path.getmtime(f) for f in src)
    have = [os.path.join(CLASSES, os.path.basename(f)[:-5] + '.class') for f in src]
    if all(os.path.exists(h) and os.path.getmtime(h) >= newest for h in have):
        return
    p = subprocess.run(['javac', '-nowarn', '-cp', TLA, '-d', CLASSES] + src, capture_output=True, text=True)
    if p.returncode:
        raise Broken('javac: ' + p.stderr[-2000:])


def run(cmd, env=None, limit=600, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=limit, cwd=cwd)
    except subprocess.TimeoutExpired:
        raise Broken('timed out: ' + ' '.join(cmd)[-300:])
    return p.returncode, p.stdout, p.stderr


def tlc(module, scratch, env=None, limit=600, heap='2500m', workers='1', overrides=True, extra=()):
    meta = tempfile.mkdtemp(dir=scratch)
    cp = CP if overrides else CP.split(':', 1)[1]
    cmd = ['java', '-Xss128m', '-Xmx' + heap, '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=4', '-Dfile.encoding=UTF-8', '-cp', cp, 'tlc2.TLC',
           '-workers', workers, '-noGenerateSpecTE', '-metadir', meta, '-config', os.path.join(SPEC, module + '.cfg'), *extra, os.path.join(SPEC, module + '.tla')]
    rc, out, err = run(cmd, env, limit, cwd=scratch)
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out, err


def states(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def model(name, tier, scratch):
    """A model of the specification: every invariant must hold (it does not depend on /repo)."""
    if not os.path.exists(os.path.join(SPEC, name + '.tla')):
        raise Broken('no model ' + name)
    rc, out, err = tlc(name, scratch, {'TIER': tier}, LIMIT[tier], workers='2', heap='3g')
    if rc != 0:
        raise Broken('model %s: %s' % (name, (out + err)[-3000:]))
    gen, dist = states(out)
    return dict(model=name, generated=gen, distinct=dist)


def histories(kind, depth, scratch):
    if kind == 'oids':
        t = open(os.path.join(SPEC, 'OidTab.tla')).read()
        return re.findall(r'<<"([\d.]+)", "', t), 0
    rc, out, err = tlc('Gen', scratch, {'GENKIND': kind, 'GENDEPTH': str(depth)}, 600, workers='1')
    if rc:
        raise Broken('Gen: ' + (out + err)[-2000:])
    hs = [json.loads(json.loads('"%s"' % m)) for m in re.findall(r'<<\s*"HIST",\s+"(.*)"\s*>>', out)]
    if not hs or len(hs) != out.count('"HIST"'):
        raise Broken('histories of %s: %d of %d read' % (kind, len(hs), out.count('"HIST"')))
    return [[x for x in h if x != '.'] for h in sorted(hs)], states(out)[1]


def judge(module, kind, trace, scratch, limit):
    """Runs the trace specification over a trace: (mismatches, known, consumed, states)."""
    rc, out, err = tlc(module, scratch, {'TRACE': trace, 'KIND': kind}, limit)
    bad = [(int(a), b) for a, b in re.findall(r'<<\s*"MISMATCH",\s+(\d+),\s+"(.*)"\s*>>', out)]
    known = [(int(a), b) for a, b in re.findall(r'<<\s*"KNOWN",\s+(\d+),\s+"(.*)"\s*>>', out)]
    m = re.search(r'<<\s*"CONSUMED",\s+(\d+),\s+(\d+),\s+(\d+)\s*>>', out)
    n = sum(1 for _ in open(trace))
    if m is None or int(m.group(1)) != n:
        # TLC stopped inside the trace: a result outside the types of the specification
        at = re.findall(r'^/\\ i = (\d+)|^i = (\d+)', out, re.M)
        if 'Error:' in out and ('OutOfMemory' not in out + err) and 'GC overhead' not in out + err:
            pos = max([int(x or y) for x, y in at] or [0])
            text = re.sub(r'\s+', ' ', out[out.index('Error:'):])[:300]
            if pos:
                bad.append((pos, 'result outside the types of the specification: ' + text.replace('"', "'")))
                return bad, known, pos, pos
        raise Broken('TLC on %s: %s' % (trace, (out + err)[-3000:]))
    if bool(bad) != (m.group(2) != '0') or bool(known) != (m.group(3) != '0'):
        raise Broken('verdicts of %s not understood: %s' % (trace, out[-3000:]))
    return bad, known, n, states(out)[1]


def shard(run_, tier, k, seed, hist, scratch, keep):
    fam, module, kind = run_
    trace = os.path.join(scratch, '%s.%d.ndjson' % (fam, k))
    t0 = time.time()
    rc, out, err = run([PY, os.path.join(HERE, 'harness', 'driver.py'), fam, tier, str(k), str(NSH), str(seed), trace, hist,
                        str(500 if tier == 'quick' else 5400)], {'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1'}, LIMIT[tier])
    if rc:
        raise Broken('driver %s: %s' % (fam, err[-3000:]))
    info = json.loads(out.strip().splitlines()[-1])
    t1 = time.time()
    bad, known, n, st = judge(module, kind, trace, scratch, LIMIT[tier])
    t2 = time.time()
    sample = None
    reports = []
    if bad or known or k == 0:
        evs = [json.loads(x) for x in open(trace)]
        if k == 0:
            sample = short(evs[1:4])
        for pos, clause in bad[:3] + known[:1]:
            reports.append(dict(pos=pos, clause=clause, event=evs[pos - 1], events=scenario(evs, pos), module=module, kind=kind))
    if not keep:
        os.unlink(trace)
    return dict(family=fam, shard=k, info=info, n=n, states=st, reports=reports, sample=sample, t_code=t1 - t0, t_tlc=t2 - t1,
                nbad=len(bad), nknown=len(known))


def short(evs):
    out = []
    for e in evs:
        s = json.dumps(e)
        out.append(e if len(s) < 600 else s[:600] + '...')
    return out


def scenario(evs, pos):
    """Events of the scenario of event pos, up to it."""
    a = pos - 1
    while a > 0 and evs[a]['op'] != 'scenario':
        a -= 1
    return evs[a:pos]


def decide(pid, tier, seed, keep=None):
    t0 = time.time()
    cfg = CHECKS[pid]
    setup()
    scratch = keep or tempfile.mkdtemp(prefix='gostcheck.')
    os.makedirs(scratch, exist_ok=True)
    try:
        hist, gstates = {}, 0
        for kind in cfg.get('hist', []):
            hist[kind], s = histories(kind, DEPTH[tier].get(kind, 0), scratch)
            gstates += s
        hf = os.path.join(scratch, 'hist.json')
        json.dump(hist, open(hf, 'w'))
        res, mods = [], []
        with cf.ThreadPoolExecutor(NSH) as ex:
            jobs = [ex.submit(shard, r, tier, k, seed, hf, scratch, keep) for r in cfg['runs'] for k in range(NSH)]
            mj = [ex.submit(model, m, tier, scratch) for m in ([] if os.environ.get('CHECK_NOMODELS') else cfg['models'])]
            err = None
            for j in jobs:
                try:
                    res.append(j.result())
                except Broken as e:
                    err = err or e
            for j in mj:
                mods.append(j.result())
        if err and not any(x['nbad'] for x in res):
            raise err
    finally:
        if not keep:
            shutil.rmtree(scratch, ignore_errors=True)
    viol, known = [], []
    for x in res:
        for rp in x['reports']:
            (known if rp['clause'].startswith('known:') else viol).append(rp)
    ops = {}
    for x in res:
        for o, n in x['info']['ops'].items():
            ops[o] = ops.get(o, 0) + n
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 1), violations=len(viol),
              coverage=dict(states=sum(m['distinct'] for m in mods) + gstates + sum(x['states'] for x in res),
                            transitions=sum(m['generated'] for m in mods) + sum(x['n'] for x in res),
                            traces_validated_against_impl=sum(x['info']['scenarios'] for x in res),
                            samples=[s for x in res for s in (x['sample'] or [])][:6],
                            calls_of_the_real_code=ops, events_followed=sum(x['n'] for x in res),
                            histories_enumerated={k: len(v) for k, v in hist.items()},
                            models=mods, shards_complete=all(x['info']['complete'] for x in res),
                            seconds={'code': round(max(x['t_code'] for x in res), 1), 'tlc': round(max(x['t_tlc'] for x in res), 1)}),
              assumptions=['TLC 1.8.0 and the Java overrides in /verif/java (checked against the TLA+ definitions by MC_Prims and MC_Gost3410)',
                           'the tables of the specification are those of the standards'])
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    return viol, known, ev


def report(pid, viol, known):
    for rp in known[:1]:
        print('KNOWN-FINDING: property=%s %s' % (pid, KNOWN.get(rp['clause'], rp['clause'])))
    if not viol:
        return 0
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    for i, rp in enumerate(viol[:3]):
        path = os.path.join(HERE, 'replays', '%s-%d.json' % (pid, i))
        json.dump(dict(property=pid, module=rp['module'], kind=rp['kind'], clause=rp['clause'],
                       how='python3 /verif/check.py --replay ' + path, events=rp['events']), open(path, 'w'))
        e = json.dumps({k: v for k, v in rp['event'].items()})
        print('%s: %s: event %s' % (pid, rp['clause'], e[:700]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1


def load_known():
    """known_findings.txt: lines 'KNOWN-FINDING: property=<id> key=<verdict> <text>'."""
    k = {}
    try:
        for line in open(os.path.join(HERE, 'known_findings.txt')):
            m = re.match(r'KNOWN-FINDING: property=(\S+) key=(\S+) (.*)', line)
            if m:
                k[m.group(2)] = m.group(3)
    except OSError:
        pass
    return k


KNOWN = load_known()


def replay(path):
    setup()
    d = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix='gostreplay.')
    try:
        tr = os.path.join(scratch, 't.ndjson')
        rc, out, err = run([PY, os.path.join(HERE, 'harness', 'driver.py'), '--replay', path, tr])
        if rc:
            raise Broken(err[-2000:])
        bad, known, n, _ = judge(d['module'], d['kind'], tr, scratch, 600)
        evs = [json.loads(x) for x in open(tr)]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for pos, clause in bad:
        print('event %d of %d: %s\n  %s' % (pos, n, clause, json.dumps(evs[pos - 1])[:1500]))
    print('reproduced' if bad else 'every call agrees with the specification')
    return 1 if bad else 0


def main():
    if sys.argv[1] == '--setup':
        return setup()
    try:
        if sys.argv[1] == '--replay':
            return replay(sys.argv[2])
        pid = sys.argv[1]
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        viol, known, ev = decide(pid, tier, seed, os.environ.get('CHECK_KEEP'))
        # a known finding suppresses nothing unless the file lists it
        for rp in list(known):
            if rp['clause'] not in KNOWN:
                known.remove(rp)
                viol.append(rp)
        rc = report(pid, viol, known)
        cov = ev['coverage']
        print('%s %s: %d scenarios, %d calls, %d states, %.0f s (code %.0f, tlc %.0f)%s' %
              (pid, tier, cov['traces_validated_against_impl'], cov['events_followed'], cov['states'], ev['wall_s'],
               cov['seconds']['code'], cov['seconds']['tlc'], '' if rc else ', held'))
        return rc
    except Broken as e:
        print('check failed: %s' % e, file=sys.stderr)
        return 2


sys.exit(main())
