"""What a simulation reports about its state: saturation, liquid mass and pressure in natural order, regression files."""
import ctypes as C, os
import numpy as np
import hypothesis.strategies as st
import gens as G, meshes as ME, sim as S, cases as CA, flow as F
import driver, C12, C13
RULE = 'diagnostics were read at least once after two different states had been set, or a regression file listed two different values'
ASSUMPTIONS = ['numbers in a regression file count the cells in the order of the solution vector (process after process)',
               'a history never reads diagnostics before they were first updated']
REG = 'c17'


@st.composite
def history(draw, kinds=('tensor', 'affine', 'columns', 'wedge', 'hex')):
    k = draw(st.integers(0, 4))
    if k == 0:
        c = draw(C12.th(kinds=kinds))
    elif k == 1:
        c = draw(C13.salt(kinds=kinds))
    elif k == 2:
        c = draw(CA.richards(kinds=[x for x in kinds if x != 'wedge'], kinds_K=('iso', 'diag'), perm=False, bcs=('neumann', 'nofun', 'dirichlet')))
        c['disc'] = 'FV_TPF'
    else:
        c = draw(CA.richards(kinds=kinds))
        c['disc'] = draw(st.sampled_from(['MPFA_O', 'MPFA_O', 'MPFA_O_TRANSIENTVAR', 'MPFA_O_DAE']))
    c.setdefault('mode', 'RICHARDS')
    c['n'] = draw(st.integers(1, 3))                # different states of the history
    c['seeds'] = [draw(G.seeds) for _ in range(c['n'])]
    op = st.one_of(st.tuples(st.sampled_from(['state', 'state', 'eval', 'prev']), st.integers(0, c['n'] - 1)), st.tuples(st.sampled_from(['diag', 'diag', 'get', 'get', 'pressure']), st.just(0)),
                   st.tuples(st.just('reg'), st.integers(0, c['n'] - 1)))
    c['ops'] = [['state', 0], ['diag', 0]] + [list(x) for x in draw(st.lists(op, min_size=2, max_size=14))] + [['diag', 0], ['get', 0]]
    c['per'] = draw(st.sampled_from([None, 1, 2, 3, 5, 50]))
    c['opts'] = [('tdy_regression_test', None), ('tdy_regression_test_filename', REG)]
    if c['per']:
        c['opts'].append(('tdy_regression_test_num_cells_per_process', str(c['per'])))
    return c


def states(c, nc):
    out = []
    for k, sd in enumerate(c['seeds']):
        r = np.random.RandomState(sd % 2 ** 32)
        P = r.uniform(c['P']['lo'], c['P']['hi'], nc)
        if c['mode'] == 'TH':
            out.append(np.stack([P, r.uniform(c['T']['lo'], c['T']['hi'], nc)], 1))
        elif c['mode'] == 'SALINITY':
            out.append(np.stack([P, r.uniform(0, 3, nc)], 1))
        elif c.get('disc') == 'MPFA_O_DAE':
            out.append(np.stack([P, r.uniform(0, 600, nc)], 1))
        else:
            out.append(P[:, None])
    return out


def observe(s, c):
    L, t = s.L, s.t
    U = states(c, s.nc)
    two = U[0].shape[1] == 2
    if L.rank == 0 and os.path.exists(REG + '.regression'):
        os.remove(REG + '.regression')
    timed = c['mode'] == 'TH' or c.get('disc', 'MPFA_O') not in ('MPFA_O', 'FV_TPF')
    if timed:
        s.ts(jac=False)
    else:
        s.snes(jac=False)
        s.prev(U[0], c['dt'])
    d = C.c_void_p()
    t('TDyCreateDiagnosticVector', C.byref(d))
    o = {'lat': s.ownlat.tolist(), 'vol': [float(v) for v in s.dmvol[s.own]], 'order': s.cell_order.tolist() if hasattr(s, 'cell_order') else list(range(s.nc)), 'log': []}
    for op, k in c['ops']:
        if op == 'state':
            v = s.gvec(U[k])
            w = C.c_void_p()            # the state is that of all cells this process knows, also those other processes own
            t('TDyCreateLocalVector', C.byref(w))
            t('TDyGlobalToLocal', v, w)
            a = np.ascontiguousarray(L.vec_get(w))
            n = a.size // U[k].shape[1]
            t('TDyUpdateState', np.ascontiguousarray(a[::2]) if c.get('disc') == 'MPFA_O_DAE' else a, n)       # DAE: the pressures
            L.destroy('Vec', w)
            L.destroy('Vec', v)
        elif op == 'eval':
            if timed:
                s.ifunction(U[k], U[k] * 0)
            else:
                s.residual(U[k])
        elif op == 'prev':
            s.set(t.obj('soln_prev'), U[k])
        elif op == 'diag':
            t('TDyUpdateDiagnostics')
        elif op == 'get':
            t('TDyGetLiquidSaturation', d)
            a = L.vec_get(d).tolist()
            t('TDyGetLiquidMass', d)
            o['log'].append([a, L.vec_get(d).tolist()])
        elif op == 'pressure':
            t('TDyGetLiquidPressure', d)
            o['log'].append([L.vec_get(d).tolist()])
        else:
            v = s.gvec(U[k])
            t('TDyOutputRegression', v)
            L.destroy('Vec', v)
            L.call('PetscBarrier', None)
            o['log'].append(open(REG + '.regression').read() if L.rank == 0 else None)
            L.call('PetscBarrier', None)
    L.destroy('Vec', d)
    return o


run = S.closing(observe)


def parse(txt):
    """regression file -> list of (name, {max,min,mean}, [(id, value)])"""
    out = []
    for l in txt.splitlines():
        if l.startswith('--'):
            out.append((l.strip('- '), {}, []))
        else:
            k, v = l.rsplit(':', 1)
            k = k.strip()
            if k in ('Max', 'Min', 'Mean'):
                out[-1][1][k] = float(v)
            else:
                out[-1][2].append((int(k), float(v)))
    return out


def oracle(c, o):
    rk = o['ranks'] if 'ranks' in o else [o]
    nc = ME.ncells(c['mesh'])
    M = S.Mat(c['mat'], nc)
    order = rk[0]['order']
    U = states(c, nc)
    seq = [l for r in rk for l in r['lat']]
    vol = np.zeros(nc)
    vol[seq] = [v for r in rk for v in r['vol']]
    bad, o['seen'] = [], 0
    if sorted(seq) != list(range(nc)):
        return ['the solution vector has cells %s' % seq]

    def phys(u):
        P = u[:, 0]
        s = C13.state(c, M, P, u[:, 1], nc) if c['mode'] == 'SALINITY' else F.state(c, M, P, nc)
        return s['S'], s['rho'] * M.phi * s['S'] * vol

    cur = diag = prev = None
    prev = 0 if c['mode'] != 'TH' and c.get('disc', 'MPFA_O') in ('MPFA_O', 'FV_TPF') else None
    used = set()
    i = 0
    for op, k in c['ops']:
        if op in ('state', 'eval'):
            cur = k
        elif op == 'prev':
            prev = k
        elif op == 'diag':
            diag = cur
            used.add(k)
        elif op in ('get', 'pressure'):
            got = [np.array([x for r in rk for x in r['log'][i][q]]) for q in range(len(rk[0]['log'][i]))]
            i += 1
            if op == 'pressure':
                if prev is None:
                    continue
                want, nm = [U[prev][:, 0]], ['pressure']
            else:
                want, nm = phys(U[diag]), ['saturation', 'liquid mass']
                o['seen'] = max(o['seen'], len({x[1] for x in c['ops'] if x[0] in ('state', 'eval')}) - 1)
            for a, w, n in zip(got, want, nm):
                w = w[order]
                if a.shape != w.shape or not (np.abs(a - w) <= 1e-9 * np.abs(w)).all():
                    bad.append('%s of cells in natural order %s, expected %s' % (n, a.tolist()[:6], w.tolist()[:6]))
        else:
            secs = parse(rk[0]['log'][i])
            i += 1
            names = {'RICHARDS': ['PRESSURE: Liquid Pressure'], 'TH': ['PRESSURE: Liquid Pressure', 'GENERIC: Temperature'],
                     'SALINITY': ['PRESSURE: Liquid Pressure', None]}[c.get('mode', 'RICHARDS')]
            if c.get('disc') == 'MPFA_O_DAE':
                names = names + [None]
            if len(secs) != len(names) or any(n and x[0] != n for n, x in zip(names, secs)):
                bad.append('regression file has sections %s' % [x[0] for x in secs])
                continue
            per = min([c['per'] or 2] + [len(r['lat']) for r in rk])
            ids, off = [], 0
            for r in rk:
                ids += [off + j * (len(r['lat']) // per) for j in range(per)]
                off += len(r['lat'])
            for d, (n, st_, vals) in enumerate(secs):
                w = U[k][seq, d]
                for q, x in (('Max', w.max()), ('Min', w.min()), ('Mean', w.mean())):
                    if not abs(st_.get(q, np.nan) - x) <= 1e-12 * max(abs(w)):
                        bad.append('%s of %s is %r, expected %r' % (q, n, st_.get(q), x))
                if [x[0] for x in vals] != ids:
                    bad.append('%s lists cells %s, expected %s' % (n, [x[0] for x in vals], ids))
                elif any(abs(v - w[j]) > 1e-12 * abs(w[j]) for j, v in vals):
                    bad.append('%s lists %s, the cells have %s' % (n, vals[:4], [w[j] for j in ids][:4]))
                if len(ids) > 1:
                    o['seen'] = max(o['seen'], 1)
    return bad[:6]


def nontrivial(c, o):
    return o.get('seen', 0) > 0


def classify(c, o):
    return [c.get('mode', 'RICHARDS') + '/' + c.get('disc', 'MPFA_O'), 'renumbered' if c.get('perm') else 'plain'] + ['op ' + k for k in {x[0] for x in c['ops']}]


PARTS = [driver.Part('history', history, 'run', oracle, (400, 12000), nontrivial=nontrivial, classify=classify),
         driver.Part('history2', history, 'run', oracle, (100, 3000), np=2, nontrivial=nontrivial, classify=classify),
         driver.Part('history_asan2', history, 'run', oracle, (12, 300), np=2, nontrivial=nontrivial, classify=classify, variant='asan'),
         driver.Part('history3', history, 'run', oracle, (60, 2000), np=3, nontrivial=nontrivial, classify=classify),
         driver.Part('asan', history, 'run', oracle, (60, 1000), variant='asan', nontrivial=nontrivial, classify=classify)]
