#!/usr/bin/env python3
"""plant.py [--no-tests] [--no-check] [--check ID,...] <id>...: confirm planted bugs in scratch copies of /repo (private mount namespace).
Prints per bug: applies, builds, demo clean/patched, stable tests, and what the property's quick check says."""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def sh(cmd, t=1200):
    try:
        p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return -9, 'timeout'


def one(i, tests, check, checks):
    d = os.path.join(V, 'seeded', i)
    meta = json.load(open(d + '/meta.json'))
    w = tempfile.mkdtemp(prefix='plant_' + i + '_', dir='/tmp')
    out = ['== %s (%s)' % (i, meta['property'])]
    try:
        sh('cp -a /repo %s/repo; mkdir %s/verif %s/demo; cd %s && cp -a $(ls -A | grep -v -e seeded -e .git -e build$) %s/verif/; mkdir -p %s/verif/build; cp -a %s/build/. %s/verif/build/; cp %s/* %s/demo/; rm -f %s/demo/*.diff %s/demo/meta.json' % (w, w, w, V, w, w, V, w, d, w, w, w))
        ns = lambda c: "unshare -m bash -c 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /repo && %s'" % (w, w, c)
        if os.environ.get('CLEAN'):
            rc, o = sh(ns('bash %s/demo/demo.sh' % w), 320)
            out.append('  demo on clean tree: %d %s' % (rc, o[-300:] if rc else ''))
        rc, o = sh('cd %s/repo && git apply %s/patch.diff' % (w, d))
        if rc:
            return '\n'.join(out + ['  patch does not apply: ' + o])
        rc, o = sh(ns('bash /opt/vp/build.sh'))
        out.append('  build: %d %s' % (rc, o[-1500:] if rc else ''))
        if rc:
            return '\n'.join(out)
        rc, o = sh(ns('bash %s/demo/demo.sh' % w), 320)
        out.append('  demo on patched tree: %d %s' % (rc, '' if rc == 0 else [l for l in o.splitlines() if 'BROKEN' in l][:3] or o[-600:]))
        if tests:
            rc, o = sh(ns('bash /opt/vp/test.sh %s/t.json' % w))
            t = json.load(open(w + '/t.json'))
            out.append('  stable tests failing: %s' % sorted(STABLE - set(t['passed'])))
        if check:
            for c in checks or [meta['property']]:
                rc, o = sh('export VERIF_SEED=1 VERIF_TIER=quick; ' + ns('cd /verif && ./run.sh %s' % c), 900)
                out.append('  check %s: exit %d %s' % (c, rc, ' | '.join(o.strip().splitlines()[-4:])[:600]))
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return '\n'.join(out)


if __name__ == '__main__':
    a = sys.argv[1:]
    tests, check, checks = True, True, None
    ids = []
    while a:
        x = a.pop(0)
        if x == '--no-tests':
            tests = False
        elif x == '--no-check':
            check = False
        elif x == '--check':
            checks = a.pop(0).split(',')
        else:
            ids.append(x)
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        for r in ex.map(lambda i: one(i, tests, check, checks), ids):
            print(r, flush=True)
