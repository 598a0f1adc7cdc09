"""Thermal-hydrologic mode: residual against an independent discretization, conservation, and its Jacobian."""
import ctypes as C
import numpy as np
import hypothesis.strategies as st
import gens as G, meshes as ME, sim as S, cases as CA, flow as F, jac as J
import driver
RULE = 'residual parts: some cell has a water or heat flux; Jacobian parts: at least one row with a nonzero derivative was compared (rows whose difference quotients disagree cross a switch and are left out)'
ASSUMPTIONS = ['gravity 0: the thermal mode has no gravity term in its flux (listed finding)', 'planar faces for the exact comparison', 'Jacobian parts: Dirichlet boundaries have boundary functions']
ENTH = 1.8890


@st.composite
def th(draw, kinds=('tensor', 'affine', 'columns', 'wedge'), bcs=('dirichlet', 'neumann', 'nofun'), perm=True, kinds_K=('iso', 'diag', 'full')):
    c = draw(CA.richards(kinds=kinds, bcs=bcs, perm=perm, kinds_K=kinds_K))
    c['mode'] = 'TH'
    c['T'] = {'seed': draw(G.seeds), 'lo': draw(st.sampled_from([0.0, 20.0, 273.0])), 'hi': draw(st.sampled_from([25.0, 300.0, 400.0]))}
    if c['bctype'] == 'dirichlet' and (c.get('bc') or draw(st.booleans())):
        c['bcT'] = draw(CA.wave((10.0, 300.0), 100.0 / c['mesh']['size']))
    c['dirs'] = draw(G.seeds)
    if c['mat']['scale'] < 1e-12:
        c['mat']['scale'] = 1e-11      # sub-face fluxes below 1e-16 are cut to zero by design
    return c


def inputs(c, nc):
    U = np.stack([CA.field(c['P'], nc), CA.field(c['T'], nc)], 1)
    r = np.random.RandomState(c['Pprev']['seed'] % 2 ** 32)
    W = np.stack([r.uniform(-1, 1, nc) * (0 if c.get('still') else 1e4), r.uniform(-1, 1, nc) * 10], 1) / c['dt']
    return U, W


def reference(c, g):
    """residual (nc,2), term sizes, tolerance of the storage derivative"""
    nc = g.nc
    M = S.Mat(c['mat'], nc)
    U, W = inputs(c, nc)
    P, T = U[:, 0], U[:, 1]
    s = F.state(c, M, P, nc)
    rb, mb = F.rho_mu(c, [F.PREF])
    cv = F.curves_of(c, nc)
    bc = S.bfun(c['bc']) if c.get('bc') else None
    bcT = S.bfun(c['bcT']) if c.get('bcT') else None
    Pb, Tb = {}, {}
    for f, X in enumerate(g.faces):
        if len(X['cells']) == 1:
            Pb[f] = float(bc(X['cen'][None])[0]) if bc else P[X['cells'][0]]
            Tb[f] = float(bcT(X['cen'][None])[0]) if bcT else T[X['cells'][0]]
    res, mag = np.zeros((nc, 2)), np.zeros((nc, 2))
    flux = 0.0
    di = c['bctype'] != 'neumann'
    for (v, f, up, dn, wc, cs, wb, kno), (_, _, _, _, hc, hs, hb, hk) in zip(F.form(g, c, M.K), F.form(g, c, M.kappa, False)):
        if dn < 0 and not di:
            continue
        k = [Pb[x] for x in kno]
        q = [Tb[x] for x in hk]
        vol = wc @ P[cs] + (wb @ np.array(k) if k else 0.0)
        vabs = np.abs(wc) @ np.abs(P[cs]) + (np.abs(wb) @ np.abs(np.array(k)) if k else 0.0)
        heat = hc @ T[hs] + (hb @ np.array(q) if q else 0.0)
        habs = np.abs(hc) @ np.abs(T[hs]) + (np.abs(hb) @ np.abs(np.array(q)) if q else 0.0)
        rho = 0.5 * (s['rho'][up] + (s['rho'][dn] if dn >= 0 else rb[0]))
        if vol > 0:
            m = s['Kr'][up] / s['mu'][up]
        elif dn >= 0:
            m = s['Kr'][dn] / s['mu'][dn]
        else:
            m = F.sat_kr(cv[up], M.Sr[up], Pb[f])[1] / mb[0]
        fm, am = rho * m * vol, rho * (m + 1e-8 / mb[0]) * (vabs + 1e-7)       # tiny relative permeabilities have few digits
        fe, ae = fm * ENTH + heat, am * ENTH + habs
        flux = max(flux, abs(fm), abs(fe))
        res[up] += fm, fe
        mag[up] += am, ae
        if dn >= 0:
            res[dn] -= fm, fe
            mag[dn] += am, ae

    def stored(p, t):
        z = F.state(c, M, p, nc)
        u = ENTH - p / z['rho']
        m = z['rho'] * M.phi * z['S'] * g.vol
        return np.stack([m, m * u + M.rhos * M.cs * (1 - M.phi) * t * g.vol], 1)
    h = 2.0
    dP1, dP2 = (stored(P + h, 0.0) - stored(P - h, 0.0)) / (2 * h), (stored(P + h / 2, 0.0) - stored(P - h / 2, 0.0)) / h
    dT = np.stack([np.zeros(nc), M.rhos * M.cs * (1 - M.phi) * g.vol], 1)
    sw = np.abs(stored(P, T * 0))
    wp = W[:, :1]
    acc = (4 * dP2 - dP1) / 3 * wp + dT * W[:, 1:]
    # the same with the internal energy held fixed while the pressure changes (listed finding): u * d(mass)/dP
    u = ENTH - P / s['rho']
    acc2 = acc.copy()
    acc2[:, 1] = acc[:, 0] * u + dT[:, 1] * W[:, 1]
    tol = (4 * np.abs(dP1 - dP2) + 1e-6 * np.abs(dP1) + 1e-13 * sw) * np.abs(wp) + 1e-11 * np.abs(dT * W[:, 1:])
    tol[:, 1] += tol[:, 0] * np.abs(u)
    return res, mag, acc, acc2, tol, flux


def observe(s, c):
    s.ts(jac=False)
    U, W = inputs(c, s.nc)
    r = s.ifunction(U, W)
    r2 = s.ifunction(U, W)
    r0 = s.ifunction(U, 0 * W)
    return {'r': r.tolist(), 'r2': r2.tolist(), 'r0': r0.tolist(), 'lat': s.ownlat.tolist(), 'vol': [float(v) for v in s.dmvol[s.own]]}


run = S.closing(observe)


def merge(c, o):
    nc = ME.ncells(c['mesh'])
    rk = o['ranks'] if 'ranks' in o else [o]
    out = {k: np.full((nc, 2), np.nan) for k in ('r', 'r2', 'r0')}
    vol = np.zeros(nc)
    for q in rk:
        for v, l in zip(q['vol'], q['lat']):
            vol[l] = v
            for k in out:
                out[k][l] = q[k][l]
    return out, vol


def oracle(c, o, strict=False):
    g = ME.Geom(c['mesh'])
    ob, _ = merge(c, o)
    res, mag, acc, acc2, tol, o['flux'] = reference(c, g)
    bad = []
    if not (ob['r'] == ob['r2']).all():
        bad.append('evaluating the residual twice gives two answers')
    for j, nm in enumerate(('water', 'energy')):
        for i in np.nonzero(~(np.abs(ob['r0'] - res)[:, j] <= 1e-8 * mag[:, j]))[0][:2]:
            bad.append('cell %d: %s flux residual %r, reference %r' % (i, nm, ob['r0'][i, j], res[i, j]))
        d = np.abs(ob['r'] - res - acc)
        if not strict:
            d = np.minimum(d, np.abs(ob['r'] - res - acc2))
        for i in np.nonzero(~(d[:, j] <= 1e-8 * mag[:, j] + tol[:, j]))[0][:2]:
            bad.append('cell %d: %s residual %r, reference flux %r + storage rate %r' % (i, nm, ob['r'][i, j], res[i, j], acc[i, j]))
    return bad


def nontrivial(c, o):
    return o.get('flux', 1) > 0


def classify(c, o):
    return [c['mesh']['kind'] + '/' + c['bctype'], 'K-' + c['mat']['K'], 'bcT' if c.get('bcT') else 'no bcT', 'dens%s' % c.get('density')]


@st.composite
def cons(draw):
    return draw(th(kinds=('hex', 'columns', 'affine', 'wedge'), bcs=('neumann',)))


def cons_oracle(c, o):
    ob, vol = merge(c, o)
    bad = []
    for j, nm in enumerate(('water', 'energy')):
        r = ob['r0'][:, j]
        if not abs(r.sum()) <= 1e-9 * np.abs(r).sum():
            bad.append('closed boundaries: %s fluxes sum to %r, sizes %r' % (nm, r.sum(), np.abs(r).sum()))
    return bad


def strict(c, o):
    return oracle(c, o, True)


@st.composite
def heavy(draw):
    c = draw(th(kinds=('cube',), bcs=('neumann',)))
    c['gravity'] = 9.8068
    c['P']['hi'] = c['P']['lo']
    return c


def fall(c, o):
    """uniform pressure is no equilibrium under gravity: water must start to move"""
    ob, _ = merge(c, o)
    return [] if c['mesh']['n'][2] < 2 or np.abs(ob['r0'][:, 0]).max() > 0 else ['gravity does not move the water of a column at uniform pressure']


@st.composite
def jfull(draw):
    return draw(th(bcs=('dirichlet', 'neumann')))


@st.composite
def jcase(draw):
    """what the listed findings leave: closed boundaries; pressure columns with dP/dt = 0, temperature columns without water flow"""
    c = draw(th(bcs=('neumann',)))
    c['cols'] = draw(st.sampled_from(['P', 'T']))
    if c['cols'] == 'P':
        c['still'] = True
    else:
        c['mat']['scale'] = 1e-30
    return c


def dirs(c, nc):
    keep = {'P': (1, 0), 'T': (0, 1)}.get(c.get('cols'), (1, 1))
    d = [v * np.array(keep) for v in J.directions(c, nc, 2, 8)]
    return [v for v in d if np.abs(v).max() > 0]


def jobserve(s, c):
    s.ts()
    U, W = inputs(c, s.nc)
    sh = 1 / c['dt']

    def jac(V):
        A, B = C.c_void_p(), C.c_void_p()
        s.L.call('TSGetIJacobian', s.tsh, C.byref(A), C.byref(B), None, None)
        s.set(s._u, V)
        s.set(s._ut, W)
        s.L.call('TSComputeIJacobian', s.tsh, C.c_double(0), s._u, s._ut, C.c_double(sh), A, B, 0)
        return B
    return J.observe(s, U, dirs(c, s.nc), np.array([J.H, 0.01]), lambda V: s.ifunction(V, W + sh * (np.asarray(V).reshape(-1, 2) - U)), jac)


jrun = S.closing(jobserve)


def joracle(c, o):
    g = ME.Geom(c['mesh'])
    res, mag, acc, _, tol, _ = reference(c, g)
    M = S.Mat(c['mat'], g.nc)
    noise = (mag + np.abs(acc)) * 4e-16 + 5e-14        # entries below 2e-16 are cut to zero by design
    U, W = inputs(c, g.nc)
    bad, o['used'] = J.compare(o, g.nc, noise.reshape(-1))
    return bad


def jnt(c, o):
    return o.get('used', 0) > 0


@st.composite
def tpf(draw):
    """two-point G matrix"""
    c = draw(th(kinds=('tensor', 'columns', 'affine', 'wedge', 'cube')))
    c['gmatrix'] = 'MPFAO_GMATRIX_TPF'
    return c


PARTS = [driver.Part('res', th, 'run', oracle, (200, 8000), nontrivial=nontrivial, classify=classify),
         driver.Part('res_asan', th, 'run', oracle, (40, 1500), nontrivial=nontrivial, classify=classify, variant='asan'),
         driver.Part('res_asan2', th, 'run', oracle, (16, 500), np=2, nontrivial=nontrivial, classify=classify, variant='asan'),
         driver.Part('res2', th, 'run', oracle, (50, 1500), np=2, nontrivial=nontrivial, classify=classify),
         driver.Part('tpf', tpf, 'run', oracle, (80, 2000), nontrivial=nontrivial, classify=classify),
         driver.Part('cons', cons, 'run', cons_oracle, (100, 3000), nontrivial=None, classify=classify),
         driver.Part('cons3', cons, 'run', cons_oracle, (30, 800), np=3, nontrivial=None, classify=classify),
         driver.Part('res_strict', th, 'run', strict, (0, 0)),
         driver.Part('gravity', heavy, 'run', fall, (0, 0)),
         driver.Part('jac_full', jfull, 'jrun', joracle, (0, 0)),
         driver.Part('jac', jcase, 'jrun', joracle, (150, 5000), nontrivial=jnt, classify=classify),
         driver.Part('jac_asan', jcase, 'jrun', joracle, (24, 800), nontrivial=jnt, variant='asan'),
         driver.Part('jac2', jcase, 'jrun', joracle, (40, 1000), np=2, nontrivial=jnt, classify=classify)]
