"""Connected regions: with the two-point G matrix nothing crosses from one region to another."""
import math
import numpy as np
import hypothesis.strategies as st
import gens as G, meshes as ME, sim as S, cases as CA, flow as F
import C07, C08, C10, C12, C13
import driver
RULE = 'a case counts when some interior face lies between two regions and the check its part is built on (C07, C08, C10, C12, C13) counts it'
ASSUMPTIONS = ['the region file is a PETSc binary vector with as many entries per cell as there are unknowns, in natural order; the first entry of a cell is its region',
               'FV-TPF, WY and BDM do not know about regions', 'thermal mode without gravity and within the limits listed for C12']


@st.composite
def regions(draw):
    k = draw(st.sampled_from(['slab', 'random', 'random']))
    q = {'kind': k, 'seed': draw(G.seeds), 'labels': draw(st.lists(st.integers(-2, 5), min_size=draw(st.sampled_from([1, 2, 2, 2, 3])), max_size=4, unique=True))}
    if k == 'slab':
        q['axis'] = draw(st.integers(0, 2))
    return q


def divided(base, default=False):
    @st.composite
    def f(draw):
        c = draw(base())
        n = c['mesh']['n']
        if math.prod(n) < 2:            # something to divide
            c['mesh'] = dict(c['mesh'], n=[2, 1, 1])
        c['regions'] = draw(regions())
        if default:
            c.pop('gmatrix', None)
        else:
            c['gmatrix'] = 'MPFAO_GMATRIX_TPF'
        return c
    return f


def cut(c):
    """interior faces between two regions"""
    g = ME.Geom(c['mesh'])
    r = S.regions(c, g.nc)
    return sum(1 for f in g.faces if len(f['cells']) == 2 and r[f['cells'][0]] != r[f['cells'][1]])


def both(nt):
    return lambda c, o: cut(c) > 0 and (nt is None or nt(c, o))


def classify(c, o):
    q = c['regions']
    n = cut(c)
    return [q['kind'], 'cut faces: %s' % ('none' if not n else '1-4' if n < 5 else '5+'), c['mesh']['kind'] + '/' + str(c.get('bctype')), 'grav' if c.get('gravity') else 'nograv',
            'perm' if c.get('perm') else 'box']


# ------------------------------------------------------------------ what happens in one region does not depend on the others
@st.composite
def cons(draw):
    return draw(divided(C08.cons)())


def alone(s, c):
    s.snes()
    P, Pp = CA.field(c['P'], s.nc), CA.field(c['Pprev'], s.nc)
    Q = CA.field(dict(c['P'], seed=c['P']['seed'] + 1), s.nc)
    reg = S.regions(c, s.nc)
    first = reg == reg[0]
    s.prev(Pp, c['dt'])
    return {'r': s.residual(P).tolist(), 'q': s.residual(np.where(first, P, Q)).tolist(), 'p': s.residual(np.where(first, Q, P)).tolist(),
            'vol': [float(v) for v in s.dmvol[s.own]], 'lat': s.ownlat.tolist()}


arun = S.closing(alone)


def aoracle(c, o):
    nc = ME.ncells(c['mesh'])
    r, q, p, vol = (np.full(nc, np.nan) for _ in range(4))
    for x in (o['ranks'] if 'ranks' in o else [o]):
        for v, l in zip(x['vol'], x['lat']):
            r[l], q[l], p[l], vol[l] = x['r'][l], x['q'][l], x['p'][l], v
    reg = S.regions(c, nc)
    first = reg == reg[0]
    bad = []
    for i in np.nonzero(~np.where(first, r == q, r == p))[0][:3]:
        bad.append('cell %d of region %d: its residual changes from %r to %r with pressures of other regions' % (i, reg[i], r[i], q[i] if first[i] else p[i]))
    M = S.Mat(c['mat'], nc)
    s, sp = F.state(c, M, CA.field(c['P'], nc), nc), F.state(c, M, CA.field(c['Pprev'], nc), nc)
    a = (s['rho'] * s['S'] - sp['rho'] * sp['S']) * M.phi * vol / c['dt']
    am = (s['rho'] * s['S'] + sp['rho'] * sp['S']) * M.phi * vol / c['dt']
    for k in sorted(set(reg.tolist())):
        i = reg == k
        if not abs(r[i].sum() - a[i].sum()) <= 1e-9 * (am[i].sum() + 1e3 * np.abs(r - a)[i].sum()):
            bad.append('region %d does not keep its water: residuals sum to %r, stored mass changes by %r' % (k, r[i].sum(), a[i].sum()))
    return bad


PARTS = []


def part(name, base, M, run, oracle, n, nt, default=False, **kw):
    PARTS.append(driver.Part(name, divided(base, default), run, oracle, n, nontrivial=both(nt), classify=classify, module=M, **kw))


part('richards', C08.two_point, 'C08', 'run', C08.oracle, (120, 4000), C08.nontrivial)
part('richards2', C08.two_point, 'C08', 'run', C08.oracle, (40, 1000), C08.nontrivial, np=2)
part('richards3', C08.two_point, 'C08', 'run', C08.oracle, (24, 800), C08.nontrivial, np=3)
part('richards_asan', C08.two_point, 'C08', 'run', C08.oracle, (24, 800), C08.nontrivial, variant='asan')
part('timed', C08.timed, 'C08', 'trun', C08.toracle, (80, 2000), C08.tnt)
part('jac', C10.tpf, 'C10', 'run', C10.oracle, (80, 2000), C10.nontrivial)
part('jac_ts', C10.tpf, 'C10', 'trun', C10.oracle, (40, 1000), C10.nontrivial)
part('jac2', C10.tpf, 'C10', 'run', C10.oracle, (24, 600), C10.nontrivial, np=2)
part('th', C12.tpf, 'C12', 'run', C12.oracle, (80, 2000), C12.nontrivial)
part('th2', C12.tpf, 'C12', 'run', C12.oracle, (24, 600), C12.nontrivial, np=2)
part('th_jac', C12.jcase, 'C12', 'jrun', C12.joracle, (40, 1000), C12.jnt)
part('salt', C13.tpf, 'C13', 'run', C13.oracle, (80, 2000), C13.nontrivial)
part('salt2', C13.tpf, 'C13', 'run', C13.oracle, (24, 600), C13.nontrivial, np=2)
part('steady', C07.tpf, 'C07', 'run', C07.oracle, (60, 1500), C07.nontrivial)
part('steady2', C07.tpf, 'C07', 'run', C07.oracle, (24, 600), C07.nontrivial, np=2)
part('ignored', C08.flat, 'C08', 'run', C08.oracle, (30, 800), C08.nontrivial, default=True)
part('ignored2', C13.cube, 'C13', 'run', C13.oracle, (16, 400), C13.nontrivial, default=True, np=2)
PARTS += [driver.Part('alone', cons, 'arun', aoracle, (80, 2000), nontrivial=both(None), classify=classify),
          driver.Part('alone2', cons, 'arun', aoracle, (24, 600), nontrivial=both(None), classify=classify, np=2)]
