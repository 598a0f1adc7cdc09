"""Water at rest stays at rest: hydrostatic states are equilibria of every discretization with gravity."""
import numpy as np
import hypothesis.strategies as st
import gens as G, meshes as ME, sim as S, cases as CA, flow as F
import driver
RULE = 'gravity is not zero and the mesh has at least two layers or an open boundary'
ASSUMPTIONS = ['constant water density', 'MPFA-O: cells are boxes (listed finding for skewed cells)', 'MPFA-O with the two-point G matrix: constant permeability (listed finding for varying ones)',
               'MPFA-O: permeability without off-diagonal entries (listed finding for full tensors)', 'an open boundary has the hydrostatic pressure function']
RHO = 998.0


@st.composite
def rest(draw, kinds=('cube', 'tensor'), disc=('MPFA_O', 'MPFA_O', 'MPFA_O_TRANSIENTVAR'), kinds_K=('iso', 'diag'), vary=(True, True, False), gmatrix=None):
    m = draw(ME.mesh(kinds=kinds, nmax=4, cells=24))
    c = {'mesh': m, 'mat': draw(CA.material(kinds=kinds_K, vary=vary)), 'density': 0, 'visc': draw(st.sampled_from([None, 1])), 'gravity': draw(st.sampled_from([9.8068, 100.0, 1.0]))}
    c['disc'] = draw(st.sampled_from(disc))
    c['bctype'] = draw(st.sampled_from(['dirichlet', 'neumann', 'seepage']))
    c['p0'] = draw(G.num(-1e5, 3e5))
    c['dt'] = draw(st.sampled_from([1.0, 1e4]))
    if gmatrix:
        c['gmatrix'] = gmatrix
    if c['disc'] == 'MPFA_O' and c['bctype'] != 'seepage' and not gmatrix and draw(st.integers(0, 3)) == 0:
        c['mode'], c['conc'] = 'SALINITY', draw(st.sampled_from([0.0, 0.3]))
        c['visc'] = None
    if draw(st.booleans()):
        c['curves'] = {'seed': draw(G.seeds)}
    elif draw(st.booleans()):
        c['vg'] = draw(CA.vg())
    if draw(st.integers(0, 2)) == 0:
        c['perm'] = draw(st.integers(1, 10 ** 6))
    if c['bctype'] != 'neumann':
        c['bc'] = {'a': [c['p0'], 0.0, 0.0, -RHO * c['gravity'], 0.0]}
        if c.get('mode'):
            c['bcS'] = {'a': [c['conc'], 0.0, 0.0, 0.0, 0.0]}
    return c


def tpf():
    return rest(kinds=('cube',), disc=('MPFA_O',), vary=(False,), kinds_K=('iso', 'diag'), gmatrix='MPFAO_GMATRIX_TPF')


def fv():
    return rest(kinds=('cube', 'tensor'), disc=('FV_TPF',), kinds_K=('iso', 'diag'))


def anymesh():
    return rest(kinds=('cube', 'tensor', 'columns'))


def observe(s, c):
    P = c['p0'] - RHO * c['gravity'] * s.cen_z()
    sal = c.get('mode') == 'SALINITY'
    U = np.stack([P, np.full(s.nc, c['conc'])], 1) if sal else P
    o = {'lat': s.ownlat.tolist()}
    if c['disc'] == 'MPFA_O_TRANSIENTVAR':
        s.ts(jac=False)
        o['r'] = s.ifunction(U, U * 0).tolist()
        return o
    s.snes(jac=not sal)
    s.prev(U, c['dt'])
    o['r'] = s.residual(U).tolist()
    return o


def cen_z(self):
    return ME.Geom(self.c['mesh']).cen[:, 2]


S.Sim.cen_z = cen_z
run = S.closing(observe)


def oracle(c, o):
    g = ME.Geom(c['mesh'])
    rk = o['ranks'] if 'ranks' in o else [o]
    M = S.Mat(c['mat'], g.nc)
    P = c['p0'] - RHO * c['gravity'] * g.cen[:, 2]
    mu = F.rho_mu(c, P)[1].min()
    kr = F.state(c, M, P, g.nc)['Kr']
    Kmax = np.abs(M.K).max()
    # size of a single flux: density, mobility, the pressure and gravity differences it is the difference of
    A = max(g.vol) ** (2 / 3.0)
    sz = RHO * Kmax / mu * A * (np.abs(P).max() + 101325.0) / (g.vol.min() ** (1 / 3.0)) + (RHO * M.phi * g.vol / c['dt']).max()
    bad, seen = [], []
    for q in rk:
        for l in q['lat']:
            seen.append(l)
            r = np.atleast_1d(q['r'][l])
            if not (np.abs(r) <= 1e-9 * sz).all():
                bad.append('cell %d: residual %r of water at rest (fluxes of size %r)' % (l, r.tolist(), sz))
    if sorted(seen) != list(range(g.nc)):
        bad.append('cells owned: %s' % sorted(seen))
    return bad[:4]


def nontrivial(c, o):
    return c['mesh']['n'][2] > 1 or c['bctype'] != 'neumann'


def classify(c, o):
    return ['%s %s %s' % (c.get('mode', 'RICHARDS'), c['disc'], c.get('gmatrix', '')), c['mesh']['kind'] + '/' + c['bctype'], 'K-' + c['mat']['K'] + (' varying' if c['mat']['vary'] else ' constant')]


PARTS = [driver.Part('rest', rest, 'run', oracle, (200, 6000), nontrivial=nontrivial, classify=classify),
         driver.Part('tpf', tpf, 'run', oracle, (60, 1500), nontrivial=nontrivial, classify=classify),
         driver.Part('fv', fv, 'run', oracle, (120, 4000), nontrivial=nontrivial, classify=classify),
         driver.Part('rest2', rest, 'run', oracle, (50, 1200), np=2, nontrivial=nontrivial, classify=classify),
         driver.Part('rest_asan2', rest, 'run', oracle, (12, 300), np=2, nontrivial=nontrivial, classify=classify, variant='asan'),
         driver.Part('fv3', fv, 'run', oracle, (40, 800), np=3, nontrivial=nontrivial, classify=classify),
         driver.Part('anymesh', anymesh, 'run', oracle, (0, 0), nontrivial=nontrivial)]
