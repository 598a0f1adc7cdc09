"""The Richards Jacobians are the derivatives of the residuals Newton is given."""
import ctypes as C
import numpy as np
import hypothesis.strategies as st
import gens as G, meshes as ME, sim as S, cases as CA, flow as F, jac as J
import driver
RULE = 'a case counts when at least one row with a nonzero derivative was compared (rows whose difference quotients at h and h/2 disagree by over 2% cross a switch and are left out)'
ASSUMPTIONS = ['Dirichlet boundaries have a boundary pressure function: without one the boundary pressure follows the cell and is not differentiated, by design']


@st.composite
def snes(draw):
    c = draw(CA.richards(bcs=('dirichlet', 'neumann', 'seepage'), gravity=(0.0,)))
    c['dirs'] = draw(G.seeds)
    return c


@st.composite
def cube(draw):
    c = draw(CA.richards(kinds=('cube', 'tensor', 'affine', 'columns', 'wedge'), bcs=('dirichlet', 'neumann', 'seepage'), gravity=(9.8068, 60.0)))
    c['dirs'] = draw(G.seeds)
    return c


@st.composite
def tpf(draw):
    c = draw(st.one_of(CA.richards(kinds=('tensor', 'affine', 'columns'), bcs=('dirichlet', 'neumann', 'seepage'), gravity=(0.0,)),
                       CA.richards(bcs=('dirichlet', 'neumann', 'seepage'), gravity=(9.8068,))))
    c['gmatrix'] = 'MPFAO_GMATRIX_TPF'
    c['dirs'] = draw(G.seeds)
    return c


def observe(s, c):
    s.snes()
    P, Pp = CA.field(c['P'], s.nc), CA.field(c['Pprev'], s.nc)
    s.prev(Pp, c['dt'])

    def jac(U):
        A, B = C.c_void_p(), C.c_void_p()
        s.L.call('SNESGetJacobian', s.s, C.byref(A), C.byref(B), None, None)
        s.set(s._u, U)
        s.L.call('SNESComputeJacobian', s.s, s._u, A, B)
        return B
    return J.observe(s, P, J.directions(c, s.nc, 1), J.H, s.residual, jac)


run = S.closing(observe)


def tobserve(s, c):
    """the time-stepper form: shift*dR/dPdot + dR/dP against differences along (v, shift*v)"""
    s.ts()
    P = CA.field(c['P'], s.nc)
    w = np.random.RandomState(c['Pprev']['seed'] % 2 ** 32).uniform(-1, 1, s.nc) * 1e4 / c['dt']
    sh = 1 / c['dt']

    def jac(U):
        A, B = C.c_void_p(), C.c_void_p()
        s.L.call('TSGetIJacobian', s.tsh, C.byref(A), C.byref(B), None, None)
        s.set(s._u, U)
        s.set(s._ut, w)
        s.L.call('TSComputeIJacobian', s.tsh, C.c_double(0), s._u, s._ut, C.c_double(sh), A, B, 0)
        return B
    return J.observe(s, P, J.directions(c, s.nc, 1), J.H, lambda U: s.ifunction(U, w + sh * (np.asarray(U).reshape(-1) - P)), jac)


trun = S.closing(tobserve)


def oracle(c, o):
    g = ME.Geom(c['mesh'])
    M = S.Mat(c['mat'], g.nc)
    P, Pp = CA.field(c['P'], g.nc), CA.field(c['Pprev'], g.nc)
    _, mag, _, _ = F.richards_mpfao(g, c, M, P, Pp, c['dt'], S.bfun(c['bc']) if c.get('bc') else None, c['bctype'])
    bad, o['used'] = J.compare(o, g.nc, mag * 2e-16)
    return bad


def nontrivial(c, o):
    return o.get('used', 0) > 0


def classify(c, o):
    return [c['mesh']['kind'] + '/' + c['bctype'], 'grav' if c['gravity'] else 'nograv', 'rows compared' if o.get('used') else 'no row']


@st.composite
def timed(draw):
    return draw(st.one_of(snes(), cube()))


PARTS = [driver.Part('ts', timed, 'trun', oracle, (120, 4000), nontrivial=nontrivial, classify=classify),
         driver.Part('snes', snes, 'run', oracle, (200, 6000), nontrivial=nontrivial, classify=classify),
         driver.Part('snes_cube', cube, 'run', oracle, (150, 4000), nontrivial=nontrivial, classify=classify),
         driver.Part('tpf', tpf, 'run', oracle, (80, 2000), nontrivial=nontrivial, classify=classify),
         driver.Part('snes2', cube, 'run', oracle, (40, 1000), np=2, nontrivial=nontrivial, classify=classify),
         driver.Part('snes_asan2', cube, 'run', oracle, (12, 300), np=2, nontrivial=nontrivial, classify=classify, variant='asan')]
