#!/usr/bin/env python3
"""mutate.py [--n N] [--seed S] [--files glob,...]: mutation campaign on a clone of /repo (never on /repo itself).
Random one-line mutations of the library's sources; the checks that cover the mutated file run until one reports a violation;
survivors are written to /tmp/mut/survivors.jsonl for a look (stable tests are run by hand on those worth it)."""
import argparse, json, os, random, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/mut'
MAP = [('materials/tdycharacteristiccurves.c', 'C02 C01 C03'), ('materials/tdyeos.c', 'C04'), ('share/tdymeshcustom', 'C21'), ('share/tdyugrid', 'C21'), ('share/tdyugdm', 'C21'), ('share/tdymesh', 'C05 C08 C07 C11'),
       ('mpfao/tdympfao.c', 'C08 C10 C07 C12 C13 C16 C17'), ('tdympfao_snes.c', 'C08 C10 C14'), ('tdympfao_ts.c', 'C08 C10'), ('tdympfao_th_ts.c', 'C12'),
       ('tdympfao_snes_salinity.c', 'C13'), ('tdympfao_steady.c', 'C07'), ('tdympfao_ts_dae.c', 'C08'), ('transientvar', 'C08 C09'),
       ('tdympfao_utils.c', 'C08 C13 C12 C10'), ('fvtpf', 'C11 C14 C16'), ('fe/tdywy', 'C19 C18'), ('fe/', 'C18 C19'), ('tdyti.c', 'C14 C15'),
       ('tdyio.c', 'C15 C16'), ('tdydriver.c', 'C16 C14 C15'), ('tdyregression.c', 'C17 C20'), ('tdycore.c', 'C16 C17 C14 C08 C20 C12 C13'),
       ('tdyconditions.c', 'C16 C08 C13 C12'), ('materialprop', 'C16 C12 C13 C18'), ('tdysalinity.c', 'C16 C13 C17'), ('tdyrichards.c', 'C17 C14'), ('tdyth.c', 'C16 C17 C12'),
       ('tdydiscretization.c', 'C17 C15'), ('tdydm.c', 'C17 C05 C21'), ('tdyutils.c', 'C05 C08 C18'), ('f90-mod', 'C20')]


def mutants(lines, rng):
    """candidate (lineno, new, what)"""
    out = []
    depth_comment = False
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith('/*') or depth_comment:
            depth_comment = '*/' not in s
            continue
        if s.startswith(('//', '#', '*', '!', 'PetscErrorCode', 'SETERRQ', 'PetscFunction', 'use ', 'implicit', 'TDY_')) or not s or 'Printf' in s or 'PetscOptions' in s or 'SETERRQ' in s:
            continue
        code = l.split('//')[0]

        def sub(pat, rep, what):
            for m in re.finditer(pat, code):
                new = code[:m.start()] + m.expand(rep) + code[m.end():]
                out.append((i, new.rstrip('\n') + '\n', what))
        sub(r' < ', ' <= ', 'relop'); sub(r' > ', ' >= ', 'relop'); sub(r' <= ', ' < ', 'relop'); sub(r' >= ', ' > ', 'relop')
        sub(r'(?<=\w)<(?=\w)', '<=', 'relop'); sub(r'(?<=\w)>(?=\w)', '>=', 'relop') if '->' not in code else None
        sub(r'==', '!=', 'eq'); sub(r'!=', '==', 'eq'); sub(r'&&', '||', 'logic'); sub(r'\|\|', '&&', 'logic')
        sub(r'\+=', '-=', 'sign'); sub(r'\+=', '=', 'accum'); sub(r'-=', '+=', 'sign')
        sub(r'(?<=[\w\])]) \+ (?=[\w(])', ' - ', 'arith'); sub(r'(?<=[\w\])]) - (?=[\w(])', ' + ', 'arith')
        sub(r'(?<=[\w\])])\+(?=[\w(])', '-', 'arith'); sub(r'(?<=[\w\])])-(?=[\w(])', '+', 'arith')
        sub(r'(?<=[\w\])]) ?\* ?(?=[\w(])', ' / ', 'arith') if '=' in code and 'Petsc' not in code.split('=')[0] else None
        sub(r'\[(?:i|c|icell|f|iface|ivertex|p|j|k|d|n)\]', '[0]', 'index')
        sub(r'\b0\.0\b', '1.0', 'const'); sub(r'\b1\.0\b', '2.0', 'const'); sub(r'\b0\.5\b', '1.0', 'const'); sub(r'\[0\]', '[1]', 'index'); sub(r'\[1\]', '[0]', 'index')
        sub(r'PETSC_TRUE', 'PETSC_FALSE', 'bool'); sub(r'PETSC_FALSE', 'PETSC_TRUE', 'bool')
        sub(r'INSERT_VALUES', 'ADD_VALUES', 'mode'); sub(r'_up\b', '_dn', 'updn'); sub(r'_dn\b', '_up', 'updn')
        if s.endswith(';') or s.endswith('CHKERRQ(ierr);'):
            if not re.match(r'(return|break|continue|case|default|Petsc\w+ \w|PetscInt|PetscReal|const|static|int |double |char |TDy\w+ \*?\w|Vec |Mat |DM |MPI_\w+ \w|extern|typedef|struct|}|goto)', s) and code.count('(') == code.count(')'):
                ind = code[:len(code) - len(code.lstrip())]
                out.append((i, ind + ';\n', 'drop'))
    return out


def main():
    a = argparse.ArgumentParser()
    a.add_argument('--n', type=int, default=100000)
    a.add_argument('--seed', type=int, default=1)
    a.add_argument('--files', default='')
    a.add_argument('--checks', default='')
    a.add_argument('--hours', type=float, default=3)
    a = a.parse_args()
    rng = random.Random(a.seed)
    os.makedirs(W, exist_ok=True)
    R, VV = W + '/repo', W + '/verif'
    subprocess.check_call('rm -rf %s/repo %s/verif; git clone -q /repo %s/repo; git clone -q /verif %s/verif' % (W, W, W, W), shell=True)
    env = dict(os.environ, TDY_REPO=R, TDY_BUILD=W + '/build', TDY_STOP='1')
    files = subprocess.check_output('cd %s && ls src/*.c src/materials/*.c src/fv/*/*.c src/fe/*.c src/f90-mod/*.c' % R, shell=True, text=True).split()
    if a.files:
        files = [f for f in files if any(x in f for x in a.files.split(','))]
    skip = ('tdytimers', 'tdydebug', 'ts_dae', 'tdyregion', 'tdymemory')
    files = [f for f in files if not any(s in f for s in skip)]
    pool = []
    for f in files:
        L = open(R + '/' + f).read().splitlines(keepends=True)
        cov = covered(f)
        m = [x for x in mutants(L, rng) if cov is None or (x[0] + 1) in cov]
        rng.shuffle(m)
        # the larger files get more, but not in proportion
        pool += [(f, x) for x in m[:max(20, int(6 * len(m) ** .5))]]
    rng.shuffle(pool)
    print(len(pool), 'candidates', flush=True)
    t0 = time.time()
    res = open(W + '/results.jsonl', 'a')
    done = 0
    for f, (i, new, what) in pool:
        if time.time() - t0 > 3600 * a.hours or done >= a.n:
            break
        p = R + '/' + f
        L = open(p).read().splitlines(keepends=True)
        old = L[i]
        if new == old:
            continue
        L[i] = new
        open(p, 'w').write(''.join(L))
        try:
            b = subprocess.run(['python3', 'harness/build.py', 'plain'], cwd=VV, env=env, capture_output=True, text=True)
            if b.returncode:
                continue
            done += 1
            checks = a.checks.split(',') if a.checks else next((c for s, c in MAP if s in f), 'C08').split()
            killed, t1, info = None, time.time(), []
            for c in checks:
                try:
                    r = subprocess.run(['./run.sh', c], cwd=VV, env=env, capture_output=True, text=True, timeout=400)
                except subprocess.TimeoutExpired:
                    info.append(c + ':timeout')
                    continue
                if r.returncode == 1:
                    killed = c
                    break
                info.append('%s:%d' % (c, r.returncode))
            rec = {'file': f, 'line': i + 1, 'what': what, 'old': old.strip(), 'new': new.strip(), 'killed': killed, 'others': info, 's': round(time.time() - t1)}
            res.write(json.dumps(rec) + '\n')
            res.flush()
            if not killed:
                open(W + '/survivors.jsonl', 'a').write(json.dumps(rec) + '\n')
            print('killed %s' % killed if killed else 'SURVIVED', f, i + 1, what, '|', old.strip()[:90], '->', new.strip()[:90], flush=True)
        finally:
            L[i] = old
            open(p, 'w').write(''.join(L))
            subprocess.run('rm -f %s/build/libtdyh-*; ls -t %s/build/obj-plain/* | tail -n +80 | xargs -r rm -f; rm -rf %s/verif/evidence' % (W, W, W), shell=True)


def covered(f):
    try:
        return set(json.load(open(W + '/cov.json')).get(os.path.basename(f), [])) or None
    except OSError:
        return None


main()
