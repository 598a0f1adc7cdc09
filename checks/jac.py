"""Jacobians against differences of the residual: observation (any number of ranks) and comparison."""
import ctypes as C
import numpy as np

H = 4.0


def directions(c, nc, ndof, k=4):
    """direction vectors (nc, ndof): unit vectors of some unknowns, one dense"""
    r = np.random.RandomState(c['dirs'] % 2 ** 32)
    out = []
    for q in r.permutation(nc * ndof)[:k]:
        v = np.zeros(nc * ndof)
        v[q] = 1.0
        out.append(v.reshape(nc, ndof))
    v = r.uniform(-1, 1, (nc, ndof))
    out.append(v)
    return out


def observe(s, U, dirs, steps, f, jac):
    """f(U) -> lattice residual of owned cells; jac() -> matrix at the last evaluated state; steps: per-dof step"""
    L = s.L
    U = np.asarray(U, dtype=float).reshape(s.nc, -1)
    f(U)
    J = jac(U)
    out = {'Jv': [], 'D1': [], 'D2': [], 'bend': [], 'fmax': []}
    x, y = s.gvec(), s.gvec()
    for v in dirs:
        s.set(x, v * steps)
        L.call('MatMult', J, x, y)
        out['Jv'].append(np.asarray(s.get(y)).reshape(-1).tolist())
    f0 = np.asarray(f(U)).reshape(-1)
    for v in dirs:
        d = v * steps
        fp, fn = np.asarray(f(U + d)).reshape(-1), np.asarray(f(U - d)).reshape(-1)
        D1 = (fp - fn) / 2
        out['bend'].append(np.abs(fp + fn - 2 * f0).tolist())
        D2 = (np.asarray(f(U + d / 2)) - np.asarray(f(U - d / 2))).reshape(-1)
        out['D1'].append(D1.tolist())
        out['D2'].append(D2.tolist())
    out['fmax'] = np.abs(f0).tolist()
    L.destroy('Vec', x)
    L.destroy('Vec', y)
    out['lat'] = s.ownlat.tolist()
    return out


def merge(o, nc):
    rk = o['ranks'] if 'ranks' in o else [o]
    w = len(rk[0]['fmax']) // nc
    own = np.full(nc, -1)
    for i, q in enumerate(rk):
        own[q['lat']] = i
    pick = lambda get: np.array([get(rk[own[i // w]])[i] for i in range(nc * w)])
    n = len(rk[0]['Jv'])
    return [tuple(pick(lambda q: q[a][k]) for a in ('Jv', 'D1', 'D2', 'bend')) for k in range(n)], pick(lambda q: q['fmax']), w


def compare(o, nc, noise, what='cell', rel=1e-5, kink=2e-2):
    """noise: rounding size of each residual entry (nc*ndof).  -> complaints, number of rows compared"""
    D, fm, w = merge(o, nc)
    bad, used = [], 0
    for k, (Jv, D1, D2, bend) in enumerate(D):
        R = (4 * D2 - D1) / 3
        sz = np.maximum(np.abs(D1), np.abs(D2))
        for i in range(nc * w):
            nz = 40 * noise[i]
            if not np.isfinite([Jv[i], D1[i], D2[i]]).all():
                bad.append('%s %d, direction %d: Jacobian %r, difference %r' % (what, i, k, Jv[i], R[i]))
                continue
            if abs(D1[i] - D2[i]) > kink * sz[i] + nz or bend[i] > 2 * kink * sz[i] + 2 * nz:
                continue        # a switch (upwinding, saturation reached) lies within the step
            used += 1
            tol = 0.6 * bend[i] + 4 * abs(D1[i] - D2[i]) + rel * (sz[i] + abs(Jv[i])) + nz
            if not abs(Jv[i] - R[i]) <= tol:
                bad.append('%s %d, direction %d: Jacobian gives %r, residual differences %r +- %r' % (what, i, k, Jv[i], R[i], tol))
    return bad[:4], used
