"""Salinity mode: water and salt residuals of a step against an independent discretization, and conservation of both."""
import numpy as np
import hypothesis.strategies as st
import gens as G, meshes as ME, sim as S, cases as CA, flow as F, refs as R
import driver
RULE = 'a case counts when some cell has a salt flux (reference) or, in the conservation parts, a nonzero residual'
ASSUMPTIONS = ['planar faces for the exact comparison', 'boundary water is fresh water at reference pressure, as the code sets it up', 'no seepage boundary: the mode does not support it']


@st.composite
def salt(draw, kinds=('tensor', 'affine', 'columns', 'wedge'), bcs=('dirichlet', 'neumann', 'nofun'), gravity=False, perm=True, kinds_K=('iso', 'diag', 'full')):
    c = draw(CA.richards(kinds=kinds, bcs=bcs, gravity=gravity, perm=perm, kinds_K=kinds_K))
    c['mode'] = 'SALINITY'
    c['Psi'] = {'seed': draw(G.seeds), 'lo': draw(st.sampled_from([0.0, 0.1, 1.0])), 'hi': draw(st.sampled_from([1.0, 0.5, 3.0]))}
    c['Psi0'] = {'seed': draw(G.seeds), 'lo': 0.0, 'hi': draw(st.sampled_from([1.0, 3.0]))}
    if c['bctype'] == 'dirichlet' and (c.get('bc') or draw(st.booleans())):
        c['bcS'] = draw(CA.wave((0.5, 3.0), 1.0 / c['mesh']['size']))
    return c


@st.composite
def cube(draw):
    return draw(salt(kinds=('cube', 'tensor', 'affine', 'columns', 'wedge'), gravity=(9.8068, 100.0, None)))


@st.composite
def tpf(draw):
    """two-point G matrix"""
    c = draw(st.one_of(salt(gravity=(9.8068,)), salt()))
    c['gmatrix'] = 'MPFAO_GMATRIX_TPF'
    return c


@st.composite
def cons(draw):
    return draw(salt(kinds=('hex', 'columns', 'affine', 'wedge'), bcs=('neumann',), gravity=(0.0, None, 500.0), perm=False))


def observe(s, c):
    s.snes(jac=False)
    nc = s.nc
    s.prev(np.stack([CA.field(c['Pprev'], nc), CA.field(c['Psi0'], nc)], 1), c['dt'])
    U = np.stack([CA.field(c['P'], nc), CA.field(c['Psi'], nc)], 1)
    r = s.residual(U)
    r2 = s.residual(U)
    return {'r': r.tolist(), 'r2': r2.tolist(), 'vol': [float(v) for v in s.dmvol[s.own]], 'lat': s.ownlat.tolist()}


run = S.closing(observe)


def merge(c, o):
    nc = ME.ncells(c['mesh'])
    rk = o['ranks'] if 'ranks' in o else [o]
    r, r2, vol, seen = np.full((nc, 2), np.nan), np.full((nc, 2), np.nan), np.zeros(nc), np.zeros(nc, dtype=int)
    for q in rk:
        for v, l in zip(q['vol'], q['lat']):
            vol[l], r[l], r2[l] = v, q['r'][l], q['r2'][l]
            seen[l] += 1
    return r, r2, vol, seen


def state(c, M, P, psi, nc):
    s = F.state(c, M, P, nc)
    m = psi * M.W / (psi * M.W + 999.0)
    s['rho'] = np.array([R.water_density(c.get('density') or 0, float(P[i]), 25.0, float(m[i]))[0] for i in range(nc)])
    s['mu'] = np.array([R.water_viscosity(c.get('visc') or 0, float(P[i]), 25.0, float(m[i]))[0] for i in range(nc)])
    return s


def stored(c, M, P, psi, vol):
    s = state(c, M, P, psi, len(vol))
    w = s['rho'] * s['S'] * M.phi * vol / c['dt']
    return np.stack([w, w * psi], 1), s


def reference(c, g):
    nc = g.nc
    M = S.Mat(c['mat'], nc)
    P, psi = CA.field(c['P'], nc), CA.field(c['Psi'], nc)
    a, s = stored(c, M, P, psi, g.vol)
    b, _ = stored(c, M, CA.field(c['Pprev'], nc), CA.field(c['Psi0'], nc), g.vol)
    res, mag = a - b, a + b
    gm = F.GRAV if c.get('gravity') is None else c['gravity']
    gv = np.array([0, 0, -gm])
    rb, mb = F.rho_mu(c, [F.PREF])
    cv = F.curves_of(c, nc)
    bc = S.bfun(c['bc']) if c.get('bc') else None
    bs = S.bfun(c['bcS']) if c.get('bcS') else None
    Pb, Sb = {}, {}
    for f, X in enumerate(g.faces):
        if len(X['cells']) == 1:
            Pb[f] = float(bc(X['cen'][None])[0]) if bc else P[X['cells'][0]]
            Sb[f] = float(bs(X['cen'][None])[0]) if bs else psi[X['cells'][0]]
    di = c['bctype'] != 'neumann'
    flux = 0.0
    for (v, f, up, dn, wc, cs, wb, kno), (_, _, _, _, hc, hs, hb, hk) in zip(F.form(g, c, M.K), F.form(g, c, M.D, False)):
        if dn < 0 and not di:
            continue
        k, q = np.array([Pb[x] for x in kno]), np.array([Sb[x] for x in hk])
        vol = wc @ P[cs] + (wb @ k if len(k) else 0.0)
        vabs = np.abs(wc) @ np.abs(P[cs]) + (np.abs(wb) @ np.abs(k) if len(k) else 0.0)
        dif = hc @ psi[hs] + (hb @ q if len(q) else 0.0)
        dabs = np.abs(hc) @ np.abs(psi[hs]) + (np.abs(hb) @ np.abs(q) if len(q) else 0.0)
        gq = F.gravity(g, c, M.K, f, up, dn, gv) if gm else 0.0
        rho = 0.5 * (s['rho'][up] + (s['rho'][dn] if dn >= 0 else rb[0]))
        drive = vol + rho * gq
        if drive > 0:
            m, x = s['Kr'][up] / s['mu'][up], psi[up]
        elif dn >= 0:
            m, x = s['Kr'][dn] / s['mu'][dn], psi[dn]
        else:
            m, x = F.sat_kr(cv[up], M.Sr[up], Pb[f])[1] / mb[0], Sb[f]
        fl = np.array([rho * m * drive, rho * m * drive * x + rho * dif])
        am = rho * m * (vabs + abs(rho * gq))
        fm = np.array([am, am * abs(x) + rho * dabs])
        flux = max(flux, abs(fl[1]))
        res[up] += fl
        mag[up] += fm
        if dn >= 0:
            res[dn] -= fl
            mag[dn] += fm
    return res, mag, flux


def oracle(c, o):
    g = ME.Geom(c['mesh'])
    r, r2, _, _ = merge(c, o)
    res, mag, o['flux'] = reference(c, g)
    bad = [] if (r == r2).all() else ['evaluating the residual twice gives two answers']
    for j, nm in enumerate(('water', 'salt')):
        for i in np.nonzero(~(np.abs(r - res)[:, j] <= 1e-8 * mag[:, j] + 1e-300))[0][:2]:
            bad.append('cell %d: %s residual %r, reference %r (terms of size %r)' % (i, nm, r[i, j], res[i, j], mag[i, j]))
    return bad


def nontrivial(c, o):
    return o.get('flux', 1) > 0


def classify(c, o):
    return [c['mesh']['kind'] + '/' + c['bctype'], 'K-' + c['mat']['K'], 'bcS' if c.get('bcS') else 'no bcS', 'dens%s' % c.get('density'), 'grav%s' % c.get('gravity')]


def cons_oracle(c, o):
    r, _, vol, seen = merge(c, o)
    if (seen != 1).any():
        return ['owned cells do not partition the mesh: %s' % seen.tolist()]
    nc = len(vol)
    M = S.Mat(c['mat'], nc)
    a, _ = stored(c, M, CA.field(c['P'], nc), CA.field(c['Psi'], nc), vol)
    b, _ = stored(c, M, CA.field(c['Pprev'], nc), CA.field(c['Psi0'], nc), vol)
    bad = []
    for j, nm in enumerate(('water', 'salt')):
        fm = np.abs(r - a + b)[:, j].sum()
        if not abs(r[:, j].sum() - (a - b)[:, j].sum()) <= 1e-9 * ((a + b)[:, j].sum() + 1e3 * fm):
            bad.append('%s is not conserved: residuals sum to %r, stored amount changes by %r (fluxes of size %r)' % (nm, r[:, j].sum(), (a - b)[:, j].sum(), fm))
    return bad


PARTS = [driver.Part('flat', salt, 'run', oracle, (200, 8000), nontrivial=nontrivial, classify=classify),
         driver.Part('cube', cube, 'run', oracle, (120, 4000), nontrivial=nontrivial, classify=classify),
         driver.Part('flat_asan', salt, 'run', oracle, (40, 1500), nontrivial=nontrivial, classify=classify, variant='asan'),
         driver.Part('flat_asan2', salt, 'run', oracle, (16, 500), np=2, nontrivial=nontrivial, classify=classify, variant='asan'),
         driver.Part('flat2', salt, 'run', oracle, (50, 1500), np=2, nontrivial=nontrivial, classify=classify),
         driver.Part('cube3', cube, 'run', oracle, (30, 800), np=3, nontrivial=nontrivial, classify=classify),
         driver.Part('tpf', tpf, 'run', oracle, (80, 2000), nontrivial=nontrivial, classify=classify),
         driver.Part('cons', cons, 'run', cons_oracle, (120, 3000), classify=classify),
         driver.Part('cons2', cons, 'run', cons_oracle, (40, 800), np=2, classify=classify)]
