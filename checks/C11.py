"""Two-point flux (FV-TPF) Richards residual against an independent discretization, its conservation, and its Jacobian."""
import ctypes as C
import numpy as np
import hypothesis.strategies as st
import gens as G, meshes as ME, sim as S, cases as CA, flow as F, jac as J
import C08, driver
RULE = 'residual parts: a case counts when it has at least two cells or an open boundary face; Jacobian parts: when at least one row was compared'
ASSUMPTIONS = ['planar faces for the exact comparison (conservation is checked on non-planar hexahedra too)',
               'Dirichlet boundaries have a boundary pressure function in the Jacobian part']
TYPES = ['dirichlet', 'neumann', 'seepage']


@st.composite
def tpf(draw, kinds=('tensor', 'affine', 'columns', 'wedge'), bcs=('dirichlet', 'neumann', 'seepage', 'nofun', 'mixed', 'mixed'), gravity=(None, 0.0, 500.0)):
    b = draw(st.sampled_from(bcs))
    c = draw(CA.richards(kinds=kinds, bcs=('dirichlet',) if b == 'mixed' else (b,), gravity=gravity))
    c['disc'] = 'FV_TPF'
    if b == 'mixed':
        # the type of each boundary face depends on its position
        c['bctypes'] = {'seed': draw(G.seeds)}
        c['bctype'] = draw(st.sampled_from([None, 'dirichlet', 'seepage', 'neumann']))
    elif b == 'neumann' and draw(st.booleans()):
        c['bctype'] = None          # no flow is the default of this discretization
    if draw(st.integers(0, 4)) == 0:
        # dry: relative permeabilities below the mobility cutoff, saturations near zero where nothing is residual
        c['P'].update(lo=-3e7, hi=draw(st.sampled_from([-1e6, 1e5])))
        if draw(st.booleans()):
            c['mat']['dry'] = True
    c['dirs'] = draw(G.seeds)
    return c


def btypes(c):
    """position -> 0/1/2"""
    r = S.rng(c['bctypes']['seed'])
    a, b = r.normal(size=3) / c['mesh']['size'], r.normal(size=3) / c['mesh']['size']
    a0, b0 = r.uniform(-1, 1, 2) * .7
    return lambda x: (np.asarray(x) @ a > a0).astype(int) + (np.asarray(x) @ b > b0).astype(int)


def prepare(s, c):
    if c.get('bctypes'):
        s.t('TDySetBoundaryPressureTypeFunction', s.L.spifun(btypes(c), 3))
    s.setup()


def running(f):
    def run(L, c):
        s = S.Sim(L, c, setup=False)
        if s.empty:
            o = {'_na': 'a process without cells'}
        else:
            prepare(s, c)
            o = f(s, c)
        s.close()
        return o
    return run


run = running(C08.observe)


def jobserve(s, c):
    s.snes()
    P, Pp = CA.field(c['P'], s.nc), CA.field(c['Pprev'], s.nc)
    s.prev(Pp, c['dt'])

    def jac(U):
        A, B = C.c_void_p(), C.c_void_p()
        s.L.call('SNESGetJacobian', s.s, C.byref(A), C.byref(B), None, None)
        s.set(s._u, U)
        s.L.call('SNESComputeJacobian', s.s, s._u, A, B)
        return B
    return J.observe(s, P, J.directions(c, s.nc, 1), J.H, s.residual, jac)


jrun = running(jobserve)


def reference(c):
    g = ME.Geom(c['mesh'])
    M = S.Mat(c['mat'], g.nc)
    P, Pp = CA.field(c['P'], g.nc), CA.field(c['Pprev'], g.nc)
    if c.get('bctypes'):
        f = btypes(c)
        bt = lambda k: TYPES[int(f(g.faces[k]['cen'][None])[0])]
    else:
        bt = lambda k: c['bctype'] or 'neumann'
    return (g,) + F.richards_tpf(g, c, M, P, Pp, c['dt'], S.bfun(c['bc']) if c.get('bc') else None, bt)


def oracle(c, o):
    o = C08.merge(c, o)
    g, ref, mag, info = reference(c)
    o['info'] = info
    r = np.array(o['r'])
    bad = []
    if o['r'] != o['r2']:
        bad.append('evaluating the residual twice gives two answers')
    d = np.abs(r - ref) / (mag + 1e-300)
    for i in np.nonzero(~(d < 1e-9))[0][:4]:
        bad.append('cell %d: residual %r, reference %r (relative difference %.2e of the terms)' % (i, r[i], ref[i], d[i]))
    return bad


def nontrivial(c, o):
    return ME.ncells(c['mesh']) > 1 or c['bctype'] not in ('neumann', None) or bool(c.get('bctypes'))


def classify(c, o):
    return [c['mesh']['kind'] + '/' + ('mixed' if c.get('bctypes') else str(c['bctype'])) + ('' if c.get('bc') else '-nofun'), 'grav%s' % c['gravity']] + ['has ' + k for k in (o.get('info') or {})]


def joracle(c, o):
    g, ref, mag, info = reference(c)
    bad, o['used'] = J.compare(o, g.nc, mag * 2e-16)
    return bad


def jnt(c, o):
    return o.get('used', 0) > 0


@st.composite
def cons(draw):
    return draw(tpf(kinds=('hex', 'columns', 'affine', 'wedge'), bcs=('neumann',)))


def jcase():
    return tpf(bcs=('dirichlet', 'neumann', 'seepage', 'mixed'))


PARTS = [driver.Part('tpf', tpf, 'run', oracle, (300, 10000), nontrivial=nontrivial, classify=classify),
         driver.Part('tpf_asan', tpf, 'run', oracle, (30, 1000), nontrivial=nontrivial, variant='asan'),
         driver.Part('tpf2', tpf, 'run', oracle, (50, 1200), np=2, nontrivial=nontrivial, classify=classify),
         driver.Part('tpf_asan2', tpf, 'run', oracle, (12, 300), np=2, nontrivial=nontrivial, classify=classify, variant='asan'),
         driver.Part('tpf3', tpf, 'run', oracle, (30, 800), np=3, nontrivial=nontrivial),
         driver.Part('cons', cons, 'run', C08.cons_oracle, (120, 3000), nontrivial=C08.cons_nt),
         driver.Part('cons2', cons, 'run', C08.cons_oracle, (40, 800), np=2, nontrivial=C08.cons_nt),
         driver.Part('jac', jcase, 'jrun', joracle, (200, 6000), nontrivial=jnt, classify=classify),
         driver.Part('jac_asan', jcase, 'jrun', joracle, (24, 800), nontrivial=jnt, variant='asan'),
         driver.Part('jac2', jcase, 'jrun', joracle, (30, 1000), np=2, nontrivial=jnt)]
