"""The Richards step residual (MPFA-O) against an independent discretization, and mass conservation on arbitrary hexahedra."""
import numpy as np
import hypothesis.strategies as st
import gens as G, meshes as ME, sim as S, cases as CA, flow as F
import driver
RULE = 'a case counts when the residual has a nonzero flux part: some cell residual differs from its accumulation term by more than 1e-9 of the term sizes'
ASSUMPTIONS = ['planar faces for the exact comparison (conservation is checked on non-planar hexahedra too)', 'gravity: the two-point form along the line joining the centres, as documented in the source']


@st.composite
def flat(draw):
    return draw(CA.richards())


@st.composite
def cube(draw):
    return draw(CA.richards(kinds=('cube', 'tensor', 'affine', 'columns', 'wedge'), gravity=(9.8068, 100.0, None)))


@st.composite
def two_point(draw):
    """the two-point G matrix: with and without gravity"""
    c = draw(st.one_of(CA.richards(), CA.richards(gravity=(9.8068, 0.0))))
    c['gmatrix'] = 'MPFAO_GMATRIX_TPF'
    return c


@st.composite
def cons(draw):
    return draw(CA.richards(kinds=('hex', 'columns', 'affine', 'wedge'), bcs=('neumann',), gravity=(0.0, None, 500.0), cells=27, perm=False))


@st.composite
def timed(draw):
    """the residual given to a time stepper: MPFA_O with dP/dt, MPFA_O_TRANSIENTVAR with dm/dt, MPFA_O_DAE with the stored water as an unknown of its own"""
    c = draw(st.one_of(CA.richards(), CA.richards(gravity=(9.8068, 0.0))))
    c['disc'] = draw(st.sampled_from(['MPFA_O', 'MPFA_O_TRANSIENTVAR', 'MPFA_O_DAE']))
    return c


def rate(c, nc):
    r = np.random.RandomState(c['Pprev']['seed'] % 2 ** 32).uniform(-1, 1, nc)
    return r * (1e4 if c['disc'] == 'MPFA_O' else 1.0) / c['dt']


def mass(c, nc):
    """a field of stored water per volume that does not fit the pressures (DAE)"""
    return np.random.RandomState((c['Pprev']['seed'] + 5) % 2 ** 32).uniform(0, 600, nc)


def tobserve(s, c):
    s.ts(jac=c['disc'] == 'MPFA_O')
    P, Pp = CA.field(c['P'], s.nc), CA.field(c['Pprev'], s.nc)
    o = {'lat': s.ownlat.tolist(), 'm': []}
    if c['disc'] == 'MPFA_O_DAE':
        w = rate(c, s.nc)
        s.ifunction(np.stack([Pp, w * 0], 1), np.stack([w, w], 1))      # another state in between: nothing of it may remain
        r = s.ifunction(np.stack([P, mass(c, s.nc)], 1), np.stack([w[::-1] * 1e5, w], 1))
        o['r'], o['m'] = r[:, 0].tolist(), r[:, 1].tolist()
        return o
    if c['disc'] != 'MPFA_O':
        m = s.gvec()
        s.ifunction(P, rate(c, s.nc))
        s.set(s._u, P)
        s.L.call('TSComputeTransientVariable', s.tsh, s._u, m)
        o['m'] = s.get(m).tolist()
        if c['Pprev']['seed'] % 2:          # TSComputeTransientVariable of another state just before, or the residual of one
            s.set(s._u, Pp)
            s.L.call('TSComputeTransientVariable', s.tsh, s._u, m)
        else:
            s.ifunction(Pp, rate(c, s.nc))
        s.L.destroy('Vec', m)
    else:
        s.ifunction(Pp, rate(c, s.nc))
    o['r'] = s.ifunction(P, rate(c, s.nc)).tolist()
    return o


trun = S.closing(tobserve)


def toracle(c, o):
    g = ME.Geom(c['mesh'])
    nc = g.nc
    rk = o['ranks'] if 'ranks' in o else [o]
    r, m = np.full(nc, np.nan), np.full(nc, np.nan)
    for q in rk:
        for l in q['lat']:
            r[l] = q['r'][l]
            if q['m']:
                m[l] = q['m'][l]
    M = S.Mat(c['mat'], nc)
    P, w = CA.field(c['P'], nc), rate(c, nc)
    ref, mag, _, _ = F.richards_mpfao(g, c, M, P, P, np.inf, S.bfun(c['bc']) if c.get('bc') else None, c['bctype'])
    stored = lambda p: (lambda s: s['rho'] * s['S'] * M.phi * g.vol)(F.state(c, M, p, nc))
    bad = []
    if c['disc'] == 'MPFA_O':
        h = 2.0
        d1, d2 = (stored(P + h) - stored(P - h)) / (2 * h), (stored(P + h / 2) - stored(P - h / 2)) / h
        acc, tol = (4 * d2 - d1) / 3 * w, (4 * np.abs(d1 - d2) + 1e-6 * np.abs(d1) + 1e-13 * stored(P)) * np.abs(w)
    elif c['disc'] == 'MPFA_O_DAE':
        acc, tol = w * g.vol, 1e-12 * np.abs(w * g.vol)
        d = mass(c, nc) - stored(P) / g.vol
        for i in np.nonzero(~(np.abs(m - d) <= 1e-10 * (mass(c, nc) + stored(P) / g.vol)))[0][:2]:
            bad.append('cell %d: residual of the stored water %r, reference %r' % (i, m[i], d[i]))
    else:
        acc, tol = w, 1e-12 * np.abs(w)
        for i in np.nonzero(~(np.abs(m - stored(P)) <= 1e-10 * stored(P)))[0][:2]:
            bad.append('cell %d: transient variable %r, stored water is %r' % (i, m[i], stored(P)[i]))
    for i in np.nonzero(~(np.abs(r - ref - acc) <= 1e-8 * mag + tol))[0][:3]:
        bad.append('cell %d: %s residual %r, reference %r (storage %r)' % (i, c['disc'], r[i], ref[i] + acc[i], acc[i]))
    return bad


def tnt(c, o):
    return True


def tclass(c, o):
    return [c['disc'], c['mesh']['kind'] + '/' + c['bctype']]


def observe(s, c):
    s.snes()
    P, Pp = CA.field(c['P'], s.nc), CA.field(c['Pprev'], s.nc)
    s.prev(Pp, c['dt'])
    r = s.residual(P)
    r2 = s.residual(P)          # evaluating again must not change anything
    return {'r': r.tolist(), 'r2': r2.tolist(), 'vol': [float(v) for v in s.dmvol[s.own]], 'lat': s.ownlat.tolist()}


run = S.closing(observe)


def merge(c, o):
    """one observation from those of the ranks (each rank reports the cells it owns)"""
    if 'ranks' not in o:
        return o
    nc = ME.ncells(c['mesh'])
    out = {'r': np.full(nc, np.nan), 'r2': np.full(nc, np.nan), 'vol': [0] * nc, 'lat': list(range(nc))}
    for q in o['ranks']:
        for v, l in zip(q['vol'], q['lat']):
            out['vol'][l] = v
            for k in ('r', 'r2'):
                out[k][l] = q[k][l]
    return {k: list(map(float, v)) if k != 'lat' else v for k, v in out.items()}


def oracle(c, o):
    o = merge(c, o)
    g = ME.Geom(c['mesh'])
    M = S.Mat(c['mat'], g.nc)
    P, Pp = CA.field(c['P'], g.nc), CA.field(c['Pprev'], g.nc)
    ref, mag, _, _ = F.richards_mpfao(g, c, M, P, Pp, c['dt'], S.bfun(c['bc']) if c.get('bc') else None, c['bctype'])
    r = np.array(o['r'])
    bad = []
    if not o['r'] == o['r2']:
        bad.append('evaluating the residual twice gives two answers')
    d = np.abs(r - ref) / (mag + 1e-300)
    for i in np.nonzero(~(d < 1e-8))[0][:4]:
        bad.append('cell %d: residual %r, reference %r (relative difference %.2e of the terms)' % (i, r[i], ref[i], d[i]))
    return bad


def nontrivial(c, o):
    o = merge(c, o)
    return any(abs(x) > 0 for x in o['r']) and len(o['r']) > 1


def classify(c, o):
    n = c['mesh']['n']
    return [c['mesh']['kind'] + '/' + c['bctype'] + ('' if c.get('bc') or c['bctype'] == 'neumann' else '-nofun'), 'K-' + c['mat']['K'],
            'thin' if min(n) == 1 else 'block', 'perm' if c.get('perm') else 'box', 'mixed curves' if c.get('curves') else 'default curves',
            'dens%s' % c.get('density')]


def cons_oracle(c, obs):
    rk = obs['ranks'] if 'ranks' in obs else [obs]
    nc = ME.ncells(c['mesh'])
    r, vol, seen = np.full(nc, np.nan), np.full(nc, np.nan), np.zeros(nc, dtype=int)
    for o in rk:
        for l, v in zip(o['lat'], o['vol']):
            vol[l] = v
            r[l] = o['r'][l]
            seen[l] += 1
    if (seen != 1).any():
        return ['owned cells do not partition the mesh: %s' % seen.tolist()]
    M = S.Mat(c['mat'], nc)
    P, Pp = CA.field(c['P'], nc), CA.field(c['Pprev'], nc)
    s, sp = F.state(c, M, P, nc), F.state(c, M, Pp, nc)
    a = (s['rho'] * s['S'] - sp['rho'] * sp['S']) * M.phi * vol / c['dt']
    amag = ((s['rho'] * s['S'] + sp['rho'] * sp['S']) * M.phi * vol / c['dt']).sum()
    fmag = np.abs(r - a).sum()
    if not abs(r.sum() - a.sum()) <= 1e-9 * (amag + 1e3 * fmag):
        return ['mass is not conserved: residuals sum to %r, stored mass changes by %r (fluxes of size %r)' % (r.sum(), a.sum(), fmag)]
    return []


def cons_nt(c, o):
    rk = o['ranks'] if 'ranks' in o else [o]
    return len(rk[0]['lat']) > 1 or len(rk) > 1


PARTS = [driver.Part('flat', flat, 'run', oracle, (300, 12000), nontrivial=nontrivial, classify=classify),
         driver.Part('cube', cube, 'run', oracle, (200, 6000), nontrivial=nontrivial, classify=classify),
         driver.Part('flat_asan', flat, 'run', oracle, (40, 1500), nontrivial=nontrivial, classify=classify, variant='asan'),
         driver.Part('flat_asan2', flat, 'run', oracle, (16, 500), np=2, nontrivial=nontrivial, classify=classify, variant='asan'),
         driver.Part('flat2', flat, 'run', oracle, (60, 1500), np=2, nontrivial=nontrivial, classify=classify),
         driver.Part('cube3', cube, 'run', oracle, (40, 1000), np=3, nontrivial=nontrivial, classify=classify),
         driver.Part('tpf', two_point, 'run', oracle, (150, 4000), nontrivial=nontrivial, classify=classify),
         driver.Part('tpf2', two_point, 'run', oracle, (40, 1000), np=2, nontrivial=nontrivial, classify=classify),
         driver.Part('timed', timed, 'trun', toracle, (150, 5000), nontrivial=tnt, classify=tclass),
         driver.Part('timed2', timed, 'trun', toracle, (40, 1000), np=2, nontrivial=tnt, classify=tclass),
         driver.Part('cons', cons, 'run', cons_oracle, (150, 4000), nontrivial=cons_nt),
         driver.Part('cons2', cons, 'run', cons_oracle, (40, 800), np=2, nontrivial=cons_nt),
         driver.Part('cons3', cons, 'run', cons_oracle, (40, 800), np=3, nontrivial=cons_nt)]
