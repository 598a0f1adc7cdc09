"""Independent discretizations (numpy, lattice meshes): MPFA-O and two-point fluxes, Richards residual and its pieces."""
import numpy as np
import refs as R
import sim as S

GRAV, PREF, TREF = 9.8068, 101325.0, 25.0


def rho_mu(c, P):
    """density and viscosity of the case's laws at P (arrays), T = 25 C, no salt"""
    P = np.atleast_1d(np.asarray(P, dtype=float))
    rho = np.array([R.water_density(c.get('density', 0) or 0, p, TREF, 0.0)[0] for p in P.tolist()])
    mu = np.array([R.water_viscosity(c.get('visc', 0) or 0, p, TREF, 0.0)[0] for p in P.tolist()])
    return rho, mu


def curves_of(c, nc):
    if c.get('curves'):
        return S.curve_params(c['curves'], nc)
    m, a = c.get('vg') or (0.8, 1e-4)               # the default curves take these two from options
    return [(1, [m, a], 1, [m, .995, .99, 1.0, .005])] * nc


def sat_kr(cv, Sr, P):
    """one point -> S, Kr"""
    st, sp, kt, kp = cv
    Pc = PREF - P
    s = (R.vg(sp[0], sp[1], Sr, Pc) if st else R.gardner(sp[0], sp[1], sp[2], Sr, Pc))[0]
    se = min(1.0, (s - Sr) / (1 - Sr))
    if se <= 0:
        return s, 0.0
    kr = (R.mualem(kp[0], kp[2], kp[3], se) if kt else R.irmay(kp[0], se))[0]
    return s, kr


def state(c, M, P, nc):
    cv = curves_of(c, nc)
    sk = [sat_kr(cv[i], M.Sr[i], float(P[i])) for i in range(nc)]
    rho, mu = rho_mu(c, P)
    return {'S': np.array([a for a, _ in sk]), 'Kr': np.array([b for _, b in sk]), 'rho': rho, 'mu': mu}


def mpfao(g, K, dirichlet=True):
    """per (vertex, face): up cell, dn cell (-1 = outside), and the linear form of the volumetric flux up->dn:
    {cell: coeff}, {bface: coeff}.  'up' is the face's first lattice cell."""
    out = []
    for v in range(g.nv):
        cs, fs = g.vcells[v], g.vfaces[v]
        if dirichlet:
            unk = [f for f in fs if len(g.faces[f]['cells']) == 2]
            kno = [f for f in fs if len(g.faces[f]['cells']) == 1]
        else:
            unk, kno = list(fs), []
        nu, nk, ncl = len(unk), len(kno), len(cs)
        # outward flux of each (cell, face) as a row over [unk | cells | kno]
        rows = {}
        for ci, c in enumerate(cs):
            fl = [f for f in g.cellf[c] if v in g.faces[f]['v']]
            assert len(fl) == 3
            X = np.array([g.faces[f]['cen'] - g.cen[c] for f in fl])
            Gi = np.linalg.inv(X)
            for f in fl:
                w = -(g.outward(f, c) / len(g.faces[f]['v'])) @ K[c] @ Gi      # coefficients of (p_f - p_c)
                row = np.zeros(nu + ncl + nk)
                for q, ff in enumerate(fl):
                    if ff in unk:
                        row[unk.index(ff)] += w[q]
                    else:
                        row[nu + ncl + kno.index(ff)] += w[q]
                    row[nu + ci] -= w[q]
                rows[c, f] = row
        if nu:
            A = np.zeros((nu, nu))
            B = np.zeros((nu, ncl + nk))
            for r, f in enumerate(unk):
                for c in g.faces[f]['cells']:
                    A[r] += rows[c, f][:nu]
                    B[r] -= rows[c, f][nu:]
            sol = np.linalg.solve(A, B)
        for f in fs:
            F = g.faces[f]
            c = F['cells'][0]
            row = rows[c, f][nu:] + (rows[c, f][:nu] @ sol if nu else 0)
            if not dirichlet and len(F['cells']) == 1:
                row = row * 0
            out.append((v, f, c, F['cells'][1] if len(F['cells']) == 2 else -1, row[:ncl], cs, row[ncl:], kno))
    return out


def two_point(g, K, dirichlet=True, mean=True):
    """the same list for the two-point G matrix: no cross terms; permeability: one value per face (mean of both sides);
    conductivity and diffusivity (mean=False): each half cell has its own, the halves in series"""
    def eff(c, u):
        return 1 / sum(u[k] ** 2 / K[c][k, k] for k in range(3))
    out = []
    for v in range(g.nv):
        for f in g.vfaces[v]:
            F = g.faces[f]
            n = F['A'] / F['area']
            up = F['cells'][0]
            a = F['area'] / len(F['v'])
            half = (lambda q: (n @ u) * eff(q, u)) if mean else (lambda q: n @ K[q] @ u)
            if len(F['cells']) == 2:
                dn = F['cells'][1]
                d = g.cen[dn] - g.cen[up]
                L = np.linalg.norm(d)
                u = d / L
                h1, h2 = half(up), half(dn)
                t = a * ((h1 + h2) / 2 if mean else 2 * h1 * h2 / (h1 + h2)) / L
                out.append((v, f, up, dn, np.array([t, -t]), [up, dn], np.zeros(0), []))
            else:
                d = F['cen'] - g.cen[up]
                L = np.linalg.norm(d)
                u = d / L
                t = a * half(up) / L if dirichlet else 0.0
                out.append((v, f, up, -1, np.array([t]), [up], np.array([-t]), [f]))
    return out


def form(g, c, K, mean=True):
    """sub-face fluxes of the case's G matrix"""
    di = c['bctype'] != 'neumann'
    if c.get('gmatrix') != 'MPFAO_GMATRIX_TPF':
        return mpfao(g, K, di)
    T, reg = two_point(g, K, di, mean), S.regions(c, g.nc)
    return T if reg is None else [t for t in T if t[3] < 0 or reg[t[2]] == reg[t[3]]]        # nothing crosses from one region to another


def gravity(g, c, K, f, up, dn, gv):
    """two-point gravity flux up->dn of one sub-face per unit density (Starnoni et al. form): distance-weighted harmonic
    permeability of the face, along the line joining the centres"""
    F = g.faces[f]
    n = F['A'] / F['area']
    a = F['area'] / len(F['v'])
    du = np.linalg.norm(F['cen'] - g.cen[up])
    if dn >= 0:
        dd = np.linalg.norm(F['cen'] - g.cen[dn])
        w = du / (du + dd)
        u = g.cen[dn] - g.cen[up]
    else:
        w, u = 1.0, F['cen'] - g.cen[up]
    u = u / np.linalg.norm(u)
    lo = K[dn] if dn >= 0 else K[up]
    if c.get('gmatrix') == 'MPFAO_GMATRIX_TPF':
        s1, s2 = [sum(u[k] ** 2 / q[k, k] for k in range(3)) for q in (K[up], lo)]
        return a * (n @ u) / (w * s1 + (1 - w) * s2) * (gv @ u)
    Kf = np.linalg.inv(w * np.linalg.inv(K[up]) + (1 - w) * np.linalg.inv(lo))
    return a * (n @ Kf @ u) * (gv @ u)


def richards_mpfao(g, c, M, P, Pprev, dt, bc, bctype, T=None):
    """residual (lattice order), magnitude per cell, smallest relative upwind margin"""
    nc = g.nc
    s, sp = state(c, M, P, nc), state(c, M, Pprev, nc)
    acc = (s['rho'] * s['S'] - sp['rho'] * sp['S']) * M.phi * g.vol / dt
    mag = (s['rho'] * s['S'] + sp['rho'] * sp['S']) * M.phi * g.vol / dt
    res = acc.copy()
    gmag = GRAV if c.get('gravity') is None else c['gravity']
    gv = np.array([0, 0, -gmag])
    cv = curves_of(c, nc)
    if T is None:
        T = form(g, c, M.K)
    rb, mb = rho_mu(c, [PREF])
    Pb = {}
    for f, F in enumerate(g.faces):
        if len(F['cells']) == 1:
            Pb[f] = float(bc(F['cen'][None])[0]) if bc else float(P[F['cells'][0]])
    margin = np.inf
    kb = {}
    info = {'in': 0, 'out': 0, 'seep': 0}
    for v, f, up, dn, wc, cs, wb, kno in T:
        vol = wc @ P[cs] + (wb @ np.array([Pb[k] for k in kno]) if len(kno) else 0.0)
        vabs = np.abs(wc) @ np.abs(P[cs]) + (np.abs(wb) @ np.abs(np.array([Pb[k] for k in kno])) if len(kno) else 0.0)
        if dn < 0 and bctype == 'neumann':
            continue
        F = g.faces[f]
        n = F['A'] / F['area']
        if gmag:
            gq = gravity(g, c, M.K, f, up, dn, gv)          # volumetric, per unit density
        else:
            gq = 0.0
        rho = 0.5 * (s['rho'][up] + (s['rho'][dn] if dn >= 0 else rb[0]))
        drive = vol + rho * gq
        margin = min(margin, abs(drive) / (vabs + abs(rho * gq) + 1e-300))
        zero = False
        if drive > 0:
            kr, mu = s['Kr'][up], s['mu'][up]
            if dn < 0:
                info['out'] += 1
        elif dn >= 0:
            kr, mu = s['Kr'][dn], s['mu'][dn]
        else:
            if f not in kb:
                kb[f] = sat_kr(cv[up], M.Sr[up], Pb[f])[1]
            kr, mu = kb[f], mb[0]
            zero = bctype == 'seepage' and Pb[f] <= PREF
            info['seep' if zero else 'in'] += 1
        fl = 0.0 if zero else rho * kr / mu * drive
        fm = rho * kr / mu * (vabs + abs(rho * gq))
        res[up] += fl
        mag[up] += fm
        if dn >= 0:
            res[dn] -= fl
            mag[dn] += fm
    return res, mag, margin, info



def tpf_faces(g):
    """per face: up, dn (-1 outside), distances, unit vector up->dn (outside->inside on the boundary), projected area"""
    out = []
    for f, F in enumerate(g.faces):
        n = F['A'] / F['area']
        a = F['cells'][0]
        if len(F['cells']) == 2:
            b = F['cells'][1]
            d = g.cen[b] - g.cen[a]
            s = n @ (F['cen'] - g.cen[a]) / (n @ d)
            L = np.linalg.norm(d)
            out.append((a, b, s * L, (1 - s) * L, d / L, F['area'] * (n @ d) / L))
        else:
            h = n @ (F['cen'] - g.cen[a])         # > 0, n points outwards
            out.append((-1, a, 0.0, h, -n, F['area']))
    return out


def richards_tpf(g, c, M, P, Pprev, dt, bc, btype):
    """two-point-flux step residual; btype(f) in dirichlet/neumann/seepage -> residual, term sizes, info"""
    nc = g.nc
    s, sp = state(c, M, P, nc), state(c, M, Pprev, nc)
    res = (s['rho'] * s['S'] - sp['rho'] * sp['S']) * M.phi * g.vol / dt
    mag = (s['rho'] * s['S'] + sp['rho'] * sp['S']) * M.phi * g.vol / dt
    gm = GRAV if c.get('gravity') is None else c['gravity']
    cv = curves_of(c, nc)
    rb, mb = rho_mu(c, [PREF])
    info = {}
    for f, (up, dn, du, dd, u, pa) in enumerate(tpf_faces(g)):
        eff = lambda q: 1 / sum(u[k] ** 2 / M.K[q][k, k] for k in range(3))
        if up >= 0:
            ku, kd = eff(up), eff(dn)
            Pu, Su, Ku, ru, mu = P[up], s['S'][up], s['Kr'][up], s['rho'][up], s['mu'][up]
        else:
            t = btype(f)
            info[t] = info.get(t, 0) + 1
            if t == 'neumann':
                continue
            ku = kd = eff(dn)
            Pu = float(bc(g.faces[f]['cen'][None])[0]) if bc else float(P[dn])
            Su, Ku = sat_kr(cv[dn], M.Sr[dn], Pu)
            ru, mu = rb[0], mb[0]
        if Ku <= 1e-8 and s['Kr'][dn] <= 1e-8:
            info['immobile'] = info.get('immobile', 0) + 1
            continue
        w = dd / (du + dd)
        if Su < 1e-8:
            w = 0.0
        elif s['S'][dn] < 1e-8:
            w = 1.0
        rho = w * ru + (1 - w) * s['rho'][dn]
        grav = rho * gm * u[2] * (du + dd)
        dphi = Pu - P[dn] - grav
        if up < 0 and t == 'seepage' and dphi > 0 and Pu - PREF < 1e-8:
            dphi = 0.0
        k = Ku / mu if dphi >= 0 else s['Kr'][dn] / s['mu'][dn]
        D = ku * kd / (du * kd + dd * ku) * pa * rho * k
        q = D * dphi
        m = abs(D) * (abs(Pu) + abs(P[dn]) + abs(grav))
        if up >= 0:
            res[up] += q
            mag[up] += m
        res[dn] -= q
        mag[dn] += m
    return res, mag, info
