"""Property-check driver: sharded Hypothesis search in the parent, execution in worker processes.

A check module (checks/<ID>.py) defines ID, RULE, ASSUMPTIONS (optional) and PARTS, a list of Part.
Each case is a JSON value; the worker function turns it into an observation of the real code, the
oracle turns (case, observation) into a list of complaints (empty = the property held)."""
import glob, hashlib, importlib, json, math, os, subprocess, sys, tempfile, time, traceback, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(VERIF, 'checks')]
import build as B
from client import Worker, PY


class Part:
    def __init__(self, name, strategy, run, oracle, n, np=1, variant='plain', nontrivial=None, classify=None,
                 handles_err=False, recycle=150, timeout=120, shards=None, lazy=False, module=None, env=None,
                 setup=None):
        self.name, self.strategy, self.run, self.oracle, self.n, self.np = name, strategy, run, oracle, n, np
        self.variant, self.nontrivial, self.classify, self.handles_err = variant, nontrivial, classify, handles_err
        self.recycle, self.timeout, self.lazy, self.module, self.env = recycle, timeout, lazy, module, env
        self.shards = shards


def grow(c, np):
    """several processes need a mesh with cells for each of them"""
    m = c.get('mesh') if isinstance(c, dict) else None
    if np > 1 and isinstance(m, dict) and 'n' in m:
        n = list(m['n'])
        while math.prod(n) < 4 * np - 1:
            n[n.index(min(n))] += 1
        c = dict(c, mesh=dict(m, n=n))
    return c


def key(case):
    return json.dumps(case, sort_keys=True)


def load(ident):
    return importlib.import_module(ident)


def get_part(mod, name):
    for p in mod.PARTS:
        if p.name == name:
            return p
    raise KeyError(name)


def not_applicable(obs):
    """reason a run gave for leaving the case out (the same on every rank)"""
    if isinstance(obs, dict):
        if '_na' in obs:
            return obs['_na']
        r = [o for o in obs.get('ranks', []) if isinstance(o, dict)]
        if r and all('_na' in o for o in r):
            return r[0]['_na']
    return None


def judge(part, case, obs):
    """-> list of complaint strings"""
    if not_applicable(obs):
        return []
    if isinstance(obs, dict):
        if '_crash' in obs:
            a = obs.get('asan') or ''
            lines = [l for l in a.splitlines() if 'ERROR' in l or l.strip().startswith('#')][:5]
            return ['the process died (status %s) %s' % (obs['_crash'], ' | '.join(x.strip() for x in lines))]
        if '_hang' in obs:
            return ['no answer within %d s' % part.timeout]
        if '_exc' in obs:
            if 'undefined symbol' in obs['_exc']:
                raise RuntimeError('harness: ' + obs['_exc'])
            return ['observation failed: ' + obs['_exc'][-700:]]
        if '_err' in obs and not part.handles_err:
            return ['library call failed: %s' % (obs['_err'],)]
    try:
        return part.oracle(case, obs)
    except Exception:
        return ['oracle could not read the observation: ' + traceback.format_exc()[-700:]]


def make_worker(part, sos):
    return Worker(sos[part.variant], part.np, asan=part.variant == 'asan', recycle=part.recycle,
                  timeout=part.timeout, lazy=part.lazy, env=part.env)


def run_job(ident, pname, shard, n, seed, out, sos, t_limit, t_shrink):
    """one shard of one part; writes a JSON summary"""
    import hypothesis
    from hypothesis import given, settings, seed as hseed, Phase, HealthCheck
    mod = load(ident)
    part = get_part(mod, pname)
    w = make_worker(part, sos)
    st = {'evals': 0, 'nontrivial': {}, 'classes': {}, 'samples': [], 'fail': None, 'skipped': 0, 'error': None}
    t0 = time.time()
    tfail = [None]
    best = [None]
    cache = {}
    sd = int(hashlib.sha256(('%s/%s/%d/%d' % (ident, pname, shard, seed)).encode()).hexdigest()[:12], 16)

    class Fail(Exception):
        pass

    def body(case):
        now = time.time()
        if now - t0 > t_limit or (tfail[0] and now - tfail[0] > t_shrink):
            st['skipped'] += 1
            return
        k = key(case)
        if k in cache:
            msgs = cache[k]
        else:
            obs = w.run(part.module or ident, part.run, case)
            msgs = judge(part, case, obs)
            st['evals'] += 1
            if tfail[0] is None:
                nt = True
                na = not_applicable(obs)
                if na:
                    nt, lab = False, 'left out: ' + na
                else:
                    if not msgs:
                        nt = part.nontrivial(case, obs) if part.nontrivial else True
                    lab = part.classify(case, obs) if (part.classify and not msgs) else None
                for l in ([lab] if isinstance(lab, str) else (lab or [])):
                    st['classes'][l] = st['classes'].get(l, 0) + 1
                if nt:
                    st['nontrivial'][hashlib.md5(k.encode()).hexdigest()[:16]] = 1
                    if len(st['samples']) < 3 and len(k) < 4000:
                        st['samples'].append(case)
            if len(cache) < 20000:
                cache[k] = msgs
        if msgs:
            if tfail[0] is None:
                tfail[0] = time.time()
            if best[0] is None or len(k) <= len(key(best[0][0])):
                best[0] = (case, msgs)
            raise Fail('; '.join(msgs)[:500])

    test = given(part.strategy().map(lambda c: grow(c, part.np)))(body)
    test = hseed(sd)(settings(max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck),
                              phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False,
                              verbosity=hypothesis.Verbosity.quiet)(test))
    try:
        test()
    except Fail:
        pass
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as ex:
        if best[0] is None:
            st['error'] = traceback.format_exc()[-3000:]
    finally:
        w.stop()
    if best[0] is not None:
        st['fail'] = {'case': best[0][0], 'msgs': best[0][1]}
    st['nontrivial'] = list(st['nontrivial'])
    st['wall'] = time.time() - t0
    st['restarts'] = w.restarts
    with open(out, 'w') as f:
        json.dump(st, f)


def replay(ident, pname, case, sos, times=3):
    """-> list of complaint lists, fresh worker each time"""
    mod = load(ident)
    part = get_part(mod, pname)
    res = []
    for _ in range(times):
        w = make_worker(part, sos)
        try:
            res.append(judge(part, case, w.run(part.module or ident, part.run, case)))
        finally:
            w.stop()
        if not res[-1]:
            break
    return res


def known_entries(ident):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('known: property=%s ' % ident):
                f = line.split(None, 3)
                rp = f[2].split('=', 1)[1]
                out.append((rp, f[3].strip()))
    return out


def violation(ident, replay_path, msgs):
    print('VIOLATION property=%s replay=%s' % (ident, replay_path))
    for m in msgs[:8]:
        print('  ' + str(m)[:600])
    sys.stdout.flush()


def save_replay(ident, pname, case, msgs):
    d = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s-%s.json' % (ident, pname, hashlib.md5(key(case).encode()).hexdigest()[:10]))
    with open(p, 'w') as f:
        json.dump({'property': ident, 'part': pname, 'case': case, 'complaints': msgs}, f, indent=1)
    return p


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('ident')
    ap.add_argument('--tier', default='quick', choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--replay')
    ap.add_argument('--part')
    ap.add_argument('--n', type=int)
    ap.add_argument('--job', nargs='+')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    if a.job:
        j = json.loads(a.job[0])
        run_job(**j)
        return 0
    t0 = time.time()
    seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = load(a.ident)
    parts = [p for p in mod.PARTS if not a.part or p.name == a.part]
    stop = bool(os.environ.get('TDY_STOP'))     # mutation runs: the first failure is enough, unshrunk
    if stop:
        parts = [p for p in parts if p.variant == 'plain'] or parts
    try:
        sos = {v: B.build(v) for v in sorted({p.variant for p in parts})}
    except B.BuildError as ex:
        print('BUILD FAILED (no verdict)\n' + str(ex)[-3000:])
        return 2
    if a.replay:
        r = json.load(open(a.replay))
        res = replay(a.ident, r['part'], r['case'], sos, 1)
        for m in res:
            print(m)
        if res and all(res):
            violation(a.ident, a.replay, res[0])
            return 1
        print('replay: property held')
        return 0
    tier = 0 if a.tier == 'quick' else 1
    t_limit = [300, 3000][tier]
    t_shrink = 1 if stop else [40, 300][tier]
    found = None
    # replays first: listed findings, then the regression corpus
    for rp, text in known_entries(a.ident):
        r = json.load(open(os.path.join(VERIF, rp)))
        if a.part and r['part'] != a.part:
            continue
        res = replay(a.ident, r['part'], r['case'], sos, 1)
        if res and res[0]:
            print('KNOWN-FINDING: property=%s %s' % (a.ident, text))
        else:
            print('note: listed finding no longer fails: %s' % text)
    nreg = 0
    for p in sorted(glob.glob(os.path.join(VERIF, 'corpus', a.ident, '*.json'))):
        r = json.load(open(p))
        if a.part and r['part'] != a.part:
            continue
        nreg += 1
        res = replay(a.ident, r['part'], r['case'], sos, 1)
        if res[0]:
            res = replay(a.ident, r['part'], r['case'], sos, 3)
            if len(res) == 3 and all(res):
                found = (p, res[0])
                break
    # search
    tot = {'evals': 0, 'nt': set(), 'classes': {}, 'samples': [], 'skipped': 0}
    perpart = {}
    fails, errors = [], []
    if found is None:
        tmp = tempfile.mkdtemp(prefix='tdyjobs-')
        jobs = []
        ncpu = 8
        for p in parts:
            n = a.n or p.n[tier]
            if n <= 0:
                continue
            sh = p.shards or max(1, ncpu // p.np)
            sh = max(1, min(sh, n // 4 or 1))
            for s in range(sh):
                k = n // sh + (1 if s < n % sh else 0)
                out = os.path.join(tmp, '%s-%d.json' % (p.name, s))
                jobs.append((p, out, dict(ident=a.ident, pname=p.name, shard=s, n=k, seed=seed, out=out, sos=sos,
                                          t_limit=t_limit, t_shrink=t_shrink)))
        running, pend = [], list(jobs)
        while pend or running:
            used = sum(p.np for p, o, pr, j in running)
            for i, (p, o, j) in enumerate(pend):
                if used + p.np <= ncpu or not running:
                    pr = subprocess.Popen([PY, os.path.join(HERE, 'driver.py'), a.ident, '--job', json.dumps(j)],
                                          stdout=subprocess.DEVNULL if not a.v else None,
                                          stderr=open(o + '.err', 'w'))
                    running.append((p, o, pr, j))
                    pend.pop(i)
                    break
            else:
                time.sleep(0.05)
            still = []
            for r in running:
                if r[2].poll() is None:
                    still.append(r)
                    continue
                p, o = r[0], r[1]
                if not os.path.exists(o):
                    errors.append('%s: job died: %s' % (p.name, open(o + '.err').read()[-2000:]))
                    continue
                st = json.load(open(o))
                tot['evals'] += st['evals']
                tot['skipped'] += st['skipped']
                tot['nt'].update(p.name + h for h in st['nontrivial'])
                for l, c in st['classes'].items():
                    l = p.name + ':' + l
                    tot['classes'][l] = tot['classes'].get(l, 0) + c
                pp = perpart.setdefault(p.name, {'evaluations': 0, 'distinct_nontrivial': 0, 'np': p.np, 'wall_s': 0, 'restarts': 0})
                pp['evaluations'] += st['evals']
                pp['distinct_nontrivial'] += len(st['nontrivial'])
                pp['wall_s'] = round(max(pp['wall_s'], st['wall']), 1)
                pp['restarts'] += st['restarts']
                if len([1 for q in tot['samples'] if q['part'] == p.name]) < 2:
                    tot['samples'] += [{'part': p.name, 'case': c} for c in st['samples'][:1]]
                if st['error']:
                    errors.append('%s: %s' % (p.name, st['error']))
                if st['fail']:
                    fails.append((p.name, st['fail']))
            running = still
            if stop and fails:
                for r in running:
                    r[2].terminate()
                running, pend = [], []
            if fails and tier == 0 and not a.v:
                pend = []        # one confirmed failure decides the run
        shutil.rmtree(tmp, ignore_errors=True)
        fails.sort(key=lambda f: len(key(f[1]['case'])))
        for pname, f in fails:
            res = replay(a.ident, pname, f['case'], sos, 3)
            if len(res) == 3 and all(res):
                found = (save_replay(a.ident, pname, f['case'], res[0]), res[0])
                break
            print('note: a failure in %s did not reproduce in fresh processes (not reported): %s' % (pname, str(f['msgs'])[:600]))
            print('  case: %s' % key(f['case'])[:1500])
    wall = time.time() - t0
    ev = {'property': a.ident, 'tier': a.tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': tot['evals'] + nreg, 'distinct_nontrivial': len(tot['nt']), 'rule': mod.RULE,
                       'samples': tot['samples'][:12] or [{'note': 'stopped in the replay tier'}],
                       'parts': perpart, 'classes': tot['classes'], 'regression_replays': nreg, 'skipped_by_time': tot['skipped']},
          'wall_s': round(wall, 1), 'violations': 1 if found else 0,
          'assumptions': getattr(mod, 'ASSUMPTIONS', [])}
    if not a.part:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', a.ident + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s%s' % (
        a.ident, a.tier, seed, tot['evals'], len(tot['nt']), wall, ', %d skipped by time limit' % tot['skipped'] if tot['skipped'] else ''))
    if a.v or a.part:
        print(json.dumps(perpart, indent=1))
        print(json.dumps(tot['classes'], indent=1, sort_keys=True))
    if found:
        violation(a.ident, found[0], found[1])
        return 1
    if errors:
        print('HARNESS ERROR (no verdict): ' + errors[0][-3000:])
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
