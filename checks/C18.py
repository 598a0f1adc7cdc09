"""Finite-element methods: the steady systems of WY and BDM."""
import numpy as np
import hypothesis.strategies as st
import gens as G, sim as S, cases as CA, fe
import driver
RULE = 'at least two cells and (boundary pressure or forcing) not zero'
ASSUMPTIONS = ['without a boundary pressure function the natural condition of the mixed methods holds: zero pressure on the boundary',
               'boundary pressures of WY are taken at face centroids; BDM integrates them with three Gauss points per direction']
WY, BDM = 4, 3


@st.composite
def case(draw, disc=None, big=False):
    c = {'disc': disc if disc is not None else draw(st.sampled_from([WY, BDM]))}
    c['mesh'] = draw(fe.mesh(cells=12 if c['disc'] == WY else 8))
    c['mat'] = draw(CA.material(scale=(1.0, 1e-3, 1e-12)))
    if draw(st.integers(0, 4)):
        c['bc'] = draw(CA.wave((-3.0, 5.0), 2.0))
    if draw(st.booleans()):
        c['forcing'] = draw(CA.wave((-1.0, 1.0), 1.0))
    if draw(st.booleans()):
        c['perm'] = draw(st.integers(1, 10 ** 6))
    if c['disc'] == BDM:
        c['quad'] = draw(st.sampled_from([None, 'FULL', 'LUMPED']))
        c['setq'] = draw(st.sampled_from([None, None, 0, 1]))
    c['twice'] = draw(st.booleans())
    return c


def run(L, c):
    s = fe.FE(L, c, c['disc'])
    if s.empty:
        s.close()
        return {'_na': 'a process without cells'}
    fn = 'TDyWYComputeSystem' if c['disc'] == WY else 'TDyBDMComputeSystem'
    if c['twice']:
        s.system(fn)
    o = {'sys': s.system(fn), 'cells': s.cells()}
    s.close()
    return o


def oracle(c, o):
    g = fe.Lattice(c['mesh'])
    K = fe.tensors(c['mat'], g.nc, g.d)
    bc = fe.fun(c['bc'], c['mesh']) if c.get('bc') else None
    f = fe.fun(c['forcing'], c['mesh']) if c.get('forcing') else None
    A, b, row = fe.gather(o)
    if sorted(row) != list(range(g.nc)):
        return ['cells owned by the processes: %s' % sorted(row)]
    p = np.array([row[k] for k in range(g.nc)])
    bad = []
    if c['disc'] == WY:
        R, rb = fe.wy(g, K, bc, f)
        if len(b) != g.nc:
            return ['%d unknowns for %d cells' % (len(b), g.nc)]
        A, b = A[np.ix_(p, p)], b[p]
    else:
        lumped = {None: c.get('quad') == 'LUMPED', 0: True, 1: False}[c.get('setq')]
        R, rb = fe.bdm(g, K, bc, f, lumped)
        nu = len({(int(x), int(v)) for q in range(g.nc) for e in range(g.d) for s in range(2) for x in [g.cf[q, e, s]] for v in g.fv[x]})
        if len(b) != g.nc + nu:
            return ['%d unknowns for %d cells and %d fluxes' % (len(b), g.nc, nu)]
        u = np.setdiff1d(np.arange(len(b)), p)
        if not np.isfinite(A).all():
            return ['the matrix holds %r' % A[~np.isfinite(A)][0]]
        if np.abs(A[np.ix_(p, p)]).max() > 0:
            bad.append('pressure block is not zero')
        M = A[np.ix_(u, u)]
        if np.abs(M - M.T).max() > 1e-10 * np.abs(M).max():
            bad.append('velocity block is not symmetric')
        if np.linalg.cond(M) > 1e13:
            return ['velocity block is singular']
        X = np.linalg.solve(M, np.concatenate([A[np.ix_(u, p)], b[u][:, None]], 1))
        A, b = -(A[np.ix_(p, p)] - A[np.ix_(p, u)] @ X[:, :-1]), -(b[p] - A[np.ix_(p, u)] @ X[:, -1])
    sc = np.abs(R).max()
    tol = 1e-8 if c['disc'] == BDM else 1e-9
    D = np.abs(A - R)
    if not D.max() <= tol * sc:
        i, j = np.unravel_index(np.argmax(D), D.shape)
        bad.append('matrix entry of cells %d and %d is %r, reference %r' % (i, j, A[i, j], R[i, j]))
    if np.abs(A - A.T).max() > 1e-9 * sc:
        bad.append('the pressure matrix is not symmetric')
    pb = max([abs(bc(x[None])[0]) for x in g.fcen] + [1e-300]) if bc else 0.0
    wave = abs(c['forcing']['a'][4]) * fe.volumes(g).max() if f else 0.0        # may cancel in the sum over the corners
    vol = np.abs(rb).max() + sc * pb + wave + 1e-300
    D = np.abs(b - rb)
    if not D.max() <= tol * vol:
        i = int(np.argmax(D))
        bad.append('right-hand side of cell %d is %r, reference %r' % (i, b[i], rb[i]))
    return bad


def nontrivial(c, o):
    return int(np.prod(c['mesh']['n'])) > 1 and bool(c.get('bc') or c.get('forcing'))


def classify(c, o):
    return [{WY: 'WY', BDM: 'BDM'}[c['disc']] + ' %dD' % len(c['mesh']['n']), c['mesh']['kind'], c['mat']['K'] + (' varying' if c['mat']['vary'] else ' constant')] + (['assembled twice'] if c['twice'] else []) + (['shuffled'] if c.get('perm') else [])


PARTS = [driver.Part('sys', case, 'run', oracle, (200, 6000), nontrivial=nontrivial, classify=classify),
         driver.Part('sys_asan', case, 'run', oracle, (30, 800), variant='asan', nontrivial=nontrivial, classify=classify),
         driver.Part('sys2', case, 'run', oracle, (50, 1500), np=2, nontrivial=nontrivial, classify=classify),
         driver.Part('sys_asan2', case, 'run', oracle, (12, 300), np=2, nontrivial=nontrivial, classify=classify, variant='asan'),
         driver.Part('sys3', case, 'run', oracle, (30, 800), np=3, nontrivial=nontrivial, classify=classify)]
