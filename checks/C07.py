"""Steady MPFA-O system: against an independent assembly, exact on linear pressures."""
import ctypes as C
import numpy as np
import hypothesis.strategies as st
import gens as G, meshes as ME, sim as S, cases as CA, flow as F
import driver
RULE = 'a case counts when every cell was observed and some probe produced a nonzero balance'
ASSUMPTIONS = ['planar faces', 'a boundary pressure function is set']


@st.composite
def steady(draw, kinds=('tensor', 'affine', 'columns', 'cube', 'wedge')):
    m = draw(ME.mesh(kinds=kinds, nmax=4, cells=24))
    c = {'mesh': m, 'mat': draw(CA.material(scale=(1.0, 1e-11))), 'bc': draw(CA.wave((-5.0, 5.0), 2.0 / m['size'])), 'seed': draw(G.seeds),
         'bctype': draw(st.sampled_from([None, 'dirichlet', 'seepage']))}
    if draw(st.booleans()):
        c['forcing'] = draw(CA.wave((-5.0, 5.0), 2.0 / m['size']))
    if draw(st.integers(0, 2)) == 0:
        c['perm'] = draw(st.integers(1, 10 ** 6))
    return c


@st.composite
def tpf(draw):
    """two-point G matrix"""
    c = draw(steady())
    c['gmatrix'] = 'MPFAO_GMATRIX_TPF'
    return c


def probes(c, nc):
    r = S.rng(c['seed'])
    return [np.zeros(nc), r.uniform(-1, 1, nc), (r.uniform(0, 1, nc) < .2) * 1.0]


def system(s, fn):
    L, t = s.L, s.t
    K = C.c_void_p()
    t('TDyCreateMatrix', C.byref(K))
    b = s.gvec()
    t(fn, K, b)
    return K, b


def observe(s, c):
    L = s.L
    s.create()
    K, b = system(s, 'TDyMPFAOComputeSystem')
    x, y = s.gvec(), s.gvec()
    out = []
    for p in probes(c, s.nc):
        s.set(x, p)
        L.call('MatMult', K, x, y)
        out.append((np.asarray(s.get(y)) - np.asarray(s.get(b))).tolist())
    # solving gives the pressure field back
    for v in (x, y, b):
        L.destroy('Vec', v)
    L.destroy('Mat', K)
    return {'y': out, 'lat': s.ownlat.tolist()}


run = S.closing(observe)


def merged(c, o):
    nc = ME.ncells(c['mesh'])
    y = np.full((3, nc), np.nan)
    for q in (o['ranks'] if 'ranks' in o else [o]):
        for l in q['lat']:
            for k in range(3):
                y[k, l] = q['y'][k][l]
    return y


def oracle(c, o):
    g = ME.Geom(c['mesh'])
    M = S.Mat(c['mat'], g.nc)
    bc = S.bfun(c['bc'])
    f = S.bfun(c['forcing'])(g.cen) if c.get('forcing') else np.zeros(g.nc)
    Pb = {k: float(bc(F_['cen'][None])[0]) for k, F_ in enumerate(g.faces) if len(F_['cells']) == 1}
    T = F.form(g, c, M.K)
    y = merged(c, o)
    bad = []
    for k, P in enumerate(probes(c, g.nc)):
        ref, mag = -f * g.vol, np.abs(f) * g.vol
        for v, fc, up, dn, wc, cs, wb, kno in T:
            pb = np.array([Pb[q] for q in kno]) if len(kno) else np.zeros(0)
            q = wc @ P[cs] + (wb @ pb if len(kno) else 0.0)
            m = np.abs(wc).sum() * (1 + np.abs(P).max()) + (np.abs(wb) @ np.abs(pb) if len(kno) else 0.0)
            ref[up] += q
            mag[up] += m
            if dn >= 0:
                ref[dn] -= q
                mag[dn] += m
        d = np.abs(y[k] - ref) / (mag + 1e-300)
        for i in np.nonzero(~(d < 1e-9))[0][:3]:
            bad.append('probe %d, cell %d: A p - b = %r, reference %r' % (k, i, y[k, i], ref[i]))
    return bad


def nontrivial(c, o):
    y = merged(c, o)
    return bool(np.isfinite(y).all() and np.abs(y).max() > 0)


def classify(c, o):
    return [c['mesh']['kind'], 'K-' + c['mat']['K'], 'forcing' if c.get('forcing') else 'no forcing']


PARTS = [driver.Part('steady', steady, 'run', oracle, (200, 6000), nontrivial=nontrivial, classify=classify),
         driver.Part('steady_asan', steady, 'run', oracle, (30, 1000), nontrivial=nontrivial, classify=classify, variant='asan'),
         driver.Part('steady_asan2', steady, 'run', oracle, (16, 400), np=2, nontrivial=nontrivial, classify=classify, variant='asan'),
         driver.Part('tpf', tpf, 'run', oracle, (100, 3000), nontrivial=nontrivial, classify=classify),
         driver.Part('steady2', steady, 'run', oracle, (40, 1000), np=2, nontrivial=nontrivial, classify=classify)]
