"""Finite-element methods (Wheeler-Yotov, BDM): meshes in 2D and 3D, the dycore on them, and an independent assembly."""
import ctypes as C, itertools
import numpy as np
import hypothesis.strategies as st
import gens as G, meshes as ME, sim as S, cases as CA


# ------------------------------------------------------------------ meshes
@st.composite
def mesh(draw, dims=(2, 2, 3), cells=12, kinds2=('tensor', 'affine', 'quad'), kinds3=('tensor', 'affine', 'columns', 'cube'), sizes=(1.0, .05, 10.0, 200.0, 2e4, 1e6, 1e-4)):
    d = draw(st.sampled_from(dims))
    if d == 3:
        m = draw(ME.mesh(kinds=kinds3, nmax=3, cells=cells))
        m['size'] = draw(st.sampled_from(sizes))
        m['away'] = draw(st.sampled_from([0.0, 0.0, -3.0, 20.0]))
        return m
    n = [draw(st.integers(1, 4)), draw(st.integers(1, 4))]
    return {'kind': draw(st.sampled_from(kinds2)), 'n': n, 'seed': draw(G.seeds), 'size': draw(st.sampled_from(sizes)), 'away': draw(st.sampled_from([0.0, 0.0, -3.0, 20.0]))}


def coords(m):
    return np.ascontiguousarray(coords0(m) + m.get('away', 0.0) * m['size'] * np.array([1.0, .7, -.4])[:len(m['n'])])


def coords0(m):
    if len(m['n']) == 3:
        return ME.coords(m)
    r = np.random.RandomState(m['seed'] % 2 ** 32)
    n = m['n']
    nn = max(n)
    ax = [np.concatenate([[0], np.cumsum(r.uniform(.5, 1.5, k))]) / nn for k in n]
    Y, X = np.meshgrid(ax[1], ax[0], indexing='ij')
    x = np.stack([X, Y], -1)
    if m['kind'] == 'affine':
        A = np.zeros((2, 2))
        while np.linalg.det(A) < .3:
            A = np.eye(2) + r.uniform(-.5, .5, (2, 2))
        x = x @ A.T
    elif m['kind'] == 'quad':
        x += r.uniform(-.2, .2, x.shape) / nn * .6
    return np.ascontiguousarray((x * m['size']).reshape(-1, 2))


class Lattice:
    """cells as 2^d corner tables (bit i of the corner number = side in direction i), faces, everything by lattice ids"""

    def __init__(self, m):
        self.m, self.x = m, coords(m)
        self.n = n = m['n']
        self.d = d = len(n)
        st = np.concatenate([[1], np.cumprod(np.array(n) + 1)[:-1]])
        self.corner = np.array([[sum((i[e] + (q >> e & 1)) * st[e] for e in range(d)) for q in range(2 ** d)]
                                for i in (t[::-1] for t in itertools.product(*[range(k) for k in n[::-1]]))])
        self.nc = len(self.corner)
        self.faces, self.cf = {}, np.zeros((self.nc, d, 2), dtype=int)
        for c in range(self.nc):
            for e in range(d):
                for s in range(2):
                    vs = tuple(sorted(self.corner[c, q] for q in range(2 ** d) if (q >> e & 1) == s))
                    self.cf[c, e, s] = self.faces.setdefault(vs, len(self.faces))
        self.fv = list(self.faces)
        self.fcells = [[] for _ in self.fv]
        for c in range(self.nc):
            for f in self.cf[c].reshape(-1):
                self.fcells[f].append(c)
        self.bnd = [len(q) == 1 for q in self.fcells]
        self.mean = self.x[self.corner].mean(1)
        # face areas and centroids (planar faces)
        self.area, self.fcen = np.zeros(len(self.fv)), np.zeros((len(self.fv), d))
        for c in range(self.nc):
            for e in range(d):
                for s in range(2):
                    f = self.cf[c, e, s]
                    q = [q for q in range(2 ** d) if (q >> e & 1) == s]
                    p = self.x[self.corner[c, q]]
                    if d == 2:
                        self.area[f], self.fcen[f] = np.linalg.norm(p[1] - p[0]), p.mean(0)
                    else:
                        A, cen = ME.poly(p[[0, 1, 3, 2]])
                        self.area[f], self.fcen[f] = np.linalg.norm(A), cen

    def geo(self, c, xi):
        """position and derivative (columns: reference directions) of the map from [-1,1]^d"""
        d, p = self.d, self.x[self.corner[c]]
        x, D = np.zeros(d), np.zeros((d, d))
        for q in range(2 ** d):
            s = [1 if q >> e & 1 else -1 for e in range(d)]
            w = [(1 + s[e] * xi[e]) / 2 for e in range(d)]
            x += np.prod(w) * p[q]
            for e in range(d):
                D[:, e] += s[e] / 2 * np.prod([w[k] for k in range(d) if k != e]) * p[q]
        return x, D


def tensors(mat, nc, d):
    """cell-wise permeability (nc,d,d)"""
    K = S.Mat(mat, nc).K
    return np.ascontiguousarray(K[:, :d, :d])


def fun(b, m):
    """function of the position in units of the mesh size"""
    f, d = S.bfun(b), len(m['n'])
    return lambda x: f(np.concatenate([np.asarray(x), np.zeros((len(x), 3 - d))], 1) / m['size'])


# ------------------------------------------------------------------ the dycore
class FE:
    def __init__(self, L, c, disc):
        self.L, self.c = L, c
        self.g = g = Lattice(c['mesh'])
        d, nc = g.d, g.nc
        self.d, self.nc = d, nc
        L.options(([('tdy_quadrature', c['quad'])] if c.get('quad') else []) + S.vg_opts(c))
        self.t = t = L.new()
        t('TDySetMode', 0)
        t('TDySetDiscretization', disc)
        if c.get('perm'):
            r = S.rng(c['perm'])
            co, vo = r.permutation(nc), r.permutation(len(g.x))
            inv = np.argsort(vo)
            order = [0, 1, 3, 2] if d == 2 else [0, 2, 3, 1, 4, 5, 7, 6]
            rot = lambda q: q
            L.mesh_cells([inv[g.corner[k][rot(order)]] for k in co], g.x[vo])
        else:
            L.mesh_box(g.n, coords=g.x)
        t.use_mesh()
        t('TDySetFromOptions')
        dm = C.c_void_p()
        t('TDyGetDM', C.byref(dm))
        self.empty = L.so.shim_min_cells(dm) <= 0
        if self.empty:
            return
        mat = c['mat']
        K = tensors(mat, nc, d)
        kind = mat['K']
        M = S.Mat(mat, nc)
        if mat.get('vary', True):
            w = lambda a: (lambda x: a[self.lookup(x)])
            if kind == 'iso':
                t('TDySetIsotropicPermeabilityFunction', L.spfun(w(K[:, 0, 0]), d))
            elif kind == 'diag':
                t('TDySetDiagonalPermeabilityFunction', L.spfun(w(np.stack([K[:, i, i] for i in range(d)], 1)), d, d))
            else:
                t('TDySetTensorPermeabilityFunction', L.spfun(w(K.reshape(nc, -1)), d, d * d))
            t('TDySetPorosityFunction', L.spfun(w(M.phi), d))
            if c.get('Sr'):
                t('TDySetResidualSaturationFunction', L.spfun(w(M.Sr), d))
        else:
            arr = lambda a: np.concatenate([np.asarray(a, dtype=float).reshape(-1), np.full(9, np.nan)])
            if kind == 'iso':
                t('TDySetConstantIsotropicPermeability', K[0, 0, 0])
            elif kind == 'diag':
                t('TDySetConstantDiagonalPermeability', arr(np.diag(K[0])))
            else:
                t('TDySetConstantTensorPermeability', arr(K[0]))
            t('TDySetConstantPorosity', M.phi[0])
            if c.get('Sr'):
                t('TDySetConstantResidualSaturation', M.Sr[0])
        if c.get('bc'):
            t('TDySetBoundaryPressureFunction', L.spfun(fun(c['bc'], c['mesh']), d))
        if c.get('forcing'):
            t('TDySetForcingFunction', L.spfun(fun(c['forcing'], c['mesh']), d))
        t('TDySetup')
        if c.get('setq') is not None:
            L.call('TDyBDMSetQuadrature', t.h, c['setq'])
        self.dm = C.c_void_p()
        t('TDyGetDM', C.byref(self.dm))
        mx = nc * 4 + 8
        n = C.c_int()
        cen, vol, go = np.zeros(3 * mx), np.zeros(mx), np.zeros(mx, dtype=np.int32)
        L.call('shim_cells', self.dm, mx, C.byref(n), cen, vol, go)
        n = n.value
        self.lat = self.lookup(cen[:3 * n].reshape(-1, 3)[:, :d])
        self.goff = go[:n]

    def set_curves(self, cv):
        S.Sim.set_curves(self, cv)

    def lookup(self, x):
        return ((np.asarray(x)[:, None, :] - self.g.mean[None]) ** 2).sum(-1).argmin(1)

    def vec(self):
        v = C.c_void_p()
        self.t('TDyCreatePrognosticVector', C.byref(v))
        return v

    def system(self, fn):
        """rows this process owns: (first row, matrix rows, right-hand side)"""
        L = self.L
        K = C.c_void_p()
        self.t('TDyCreateMatrix', C.byref(K))
        b, x, y = self.vec(), self.vec(), self.vec()
        self.t(fn, K, b)
        lo, hi = L.vec_range(b)
        N = C.c_int()
        L.call('VecGetSize', b, C.byref(N))
        N = N.value
        A = np.zeros((hi - lo, N))
        for j in range(N):
            L.vec_set(x, [1.0 if k == j else 0.0 for k in range(lo, hi)])
            L.call('MatMult', K, x, y)
            A[:, j] = L.vec_get(y)
        out = {'lo': lo, 'A': A.tolist(), 'b': L.vec_get(b).tolist()}
        for v in (x, y, b):
            L.destroy('Vec', v)
        L.destroy('Mat', K)
        return out

    def ts(self):
        L = self.L
        h = C.c_void_p()
        L.call('TSCreate', C.c_void_p(L.so.shim_comm(C.c_int(1))), C.byref(h))
        L.call('TSSetDM', h, self.dm)
        L.call('TDySetIFunction', h, self.t.h)
        return h

    def ifunction(self, h, U, W):
        """residual at lattice-ordered pressures and rates (cell methods): [lattice cell, value] of the owned cells"""
        L = self.L
        u, w, r = self.vec(), self.vec(), self.vec()
        own = np.nonzero(self.goff >= 0)[0]
        own = own[np.argsort(self.goff[own])]
        lat = self.lat[own]
        L.vec_set(u, np.asarray(U)[lat])
        L.vec_set(w, np.asarray(W)[lat])
        L.call('TSComputeIFunction', h, C.c_double(0), u, w, r, 0)
        out = [[int(a), float(b)] for a, b in zip(lat, L.vec_get(r))]
        for v in (u, w, r):
            L.destroy('Vec', v)
        return out

    def cells(self):
        """[lattice cell, its first row] of the cells this process owns"""
        return [[int(l), int(o)] for l, o in zip(self.lat, self.goff) if o >= 0]

    def close(self):
        self.t.destroy()


def gather(o):
    """(A, b, row of each lattice cell)"""
    rk = o['ranks'] if 'ranks' in o else [o]
    sy = sorted((r['sys'] for r in rk), key=lambda s: s['lo'])
    A = np.concatenate([np.array(s['A']).reshape(len(s['b']), -1) for s in sy if s['b']])
    b = np.concatenate([np.array(s['b']) for s in sy])
    row = {l: r for q in rk for l, r in q['cells']}
    return A, b, row


# ------------------------------------------------------------------ reference assemblies
def volumes(g):
    """cell volumes, two Gauss points per direction"""
    gx, gw = gauss(2)
    return np.array([sum(np.prod(gw[list(p)]) * abs(np.linalg.det(g.geo(c, gx[list(p)])[1])) for p in itertools.product(range(2), repeat=g.d)) for c in range(g.nc)])


def wy(g, K, bc, f):
    """dense pressure system of the Wheeler-Yotov multipoint flux mixed method"""
    d, nc = g.d, g.nc
    A, b = np.zeros((nc, nc)), np.zeros(nc)
    inc = {}
    for c in range(nc):
        for q in range(2 ** d):
            inc.setdefault(g.corner[c, q], []).append((c, q))
            xi = [1.0 if q >> e & 1 else -1.0 for e in range(d)]
            if f is not None:
                x, D = g.geo(c, xi)
                b[c] += f(x[None])[0] * abs(np.linalg.det(D))
    for v, lst in inc.items():
        fs = sorted({int(g.cf[c, e, q >> e & 1]) for c, q in lst for e in range(d)})
        cs = sorted({c for c, _ in lst})
        M, B, w = np.zeros((len(fs), len(fs))), np.zeros((len(fs), len(cs))), np.zeros(len(fs))
        for c, q in lst:
            xi = np.array([1.0 if q >> e & 1 else -1.0 for e in range(d)])
            _, D = g.geo(c, xi)
            J = abs(np.linalg.det(D))
            # physical velocity at this corner for a unit normal flux through each of its faces (outward of the first cell of the face)
            cols, idx = np.zeros((d, d)), []
            for e in range(d):
                fc = int(g.cf[c, e, q >> e & 1])
                sg = 1.0 if g.fcells[fc][0] == c else -1.0
                cols[:, e] = sg * xi[e] * D[:, e] / J * (g.area[fc] / 2 ** (d - 1))
                idx.append(fs.index(fc))
                B[idx[-1], cs.index(c)] += sg * g.area[fc] / 2 ** (d - 1)
                if g.bnd[fc] and bc is not None:
                    w[idx[-1]] += g.area[fc] / 2 ** (d - 1) * bc(g.fcen[fc][None])[0]
            M[np.ix_(idx, idx)] += J * cols.T @ np.linalg.solve(K[c], cols)
        X = np.linalg.solve(M, np.concatenate([B, w[:, None]], 1))
        A[np.ix_(cs, cs)] += B.T @ X[:, :-1]
        b[cs] += B.T @ X[:, -1]
    return A, b


def monomials(d):
    """the enhanced BDM1 space on [-1,1]^d as a list of vector polynomials, each {component: {exponents: coefficient}}"""
    out = []
    unit = np.eye(d, dtype=int)
    for k in range(d):
        for e in [np.zeros(d, dtype=int)] + list(unit):
            out.append({k: {tuple(e): 1.0}})

    def diff(p, k):
        return {tuple(np.array(e) - unit[k]): c * e[k] for e, c in p.items() if e[k]}

    def neg(p):
        return {e: -c for e, c in p.items()}

    def add(p, q):
        r = dict(p)
        for e, c in q.items():
            r[e] = r.get(e, 0) + c
        return r
    if d == 2:
        for p in ({(2, 1): 1.0}, {(1, 2): 1.0}):
            out.append({0: diff(p, 1), 1: neg(diff(p, 0))})
    else:
        pots = []
        for k in range(3):          # potential along k; a, b the other two directions
            a, b = (k + 1) % 3, (k + 2) % 3
            e = lambda **kw: tuple(kw.get('abk'[[a, b, k].index(i)], 0) for i in range(3))
            for t in (e(a=1, b=1, k=1), None):
                if t:
                    pots.append((k, {t: 1.0}))
        # curl potentials of Wheeler, Xue, Yotov (2012): r: along z, s: along x, t: along y
        for k, lst in ((2, [(1, 2, 0), (2, 0, 1), (2, 1, 1)]), (0, [(0, 1, 2), (1, 2, 0), (1, 2, 1)]), (1, [(2, 0, 1), (0, 1, 2), (1, 1, 2)])):
            for t in lst:
                pots.append((k, {t: 1.0}))
        for k, p in pots:
            a, b = (k + 1) % 3, (k + 2) % 3
            # curl (p e_k) = dp/db e_a - dp/da e_b
            out.append({a: diff(p, b), b: neg(diff(p, a))})
    return out


def evalp(v, d, x):
    r = np.zeros(d)
    for k, p in v.items():
        for e, c in p.items():
            r[k] += c * np.prod([x[i] ** e[i] for i in range(d)])
    return r


_basis = {}


def basis(d):
    """coefficients of the nodal basis: function (q, e) has outward normal component with unit flux at corner q of face (e, side of q), 0 at all others"""
    if d not in _basis:
        mon = monomials(d)
        n = len(mon)
        assert n == d * 2 ** d, n
        T = np.zeros((n, n))
        for q in range(2 ** d):
            xi = np.array([1.0 if q >> e & 1 else -1.0 for e in range(d)])
            V = np.array([evalp(v, d, xi) for v in mon])
            for e in range(d):
                T[q * d + e] = V[:, e] * xi[e]
        assert np.linalg.cond(T) < 1e6, np.linalg.cond(T)
        _basis[d] = (mon, np.linalg.inv(T))
    return _basis[d]


def gauss(k):
    return np.polynomial.legendre.leggauss(k)


def bdm(g, K, bc, f, lumped=False):
    """dense pressure system after eliminating the velocities of the BDM1 mixed method"""
    d, nc = g.d, g.nc
    mon, Cf = basis(d)
    nb = d * 2 ** d
    dof = {}
    for c in range(nc):
        for q in range(2 ** d):
            for e in range(d):
                dof.setdefault((int(g.cf[c, e, q >> e & 1]), int(g.corner[c, q])), len(dof))
    N = len(dof)
    M, B, w, b = np.zeros((N, N)), np.zeros((N, nc)), np.zeros(N), np.zeros(nc)
    if lumped:
        pts = [(np.array(p), 1.0) for p in itertools.product((-1.0, 1.0), repeat=d)]
    else:
        gx, gw = gauss(3)
        pts = [(gx[list(p)], np.prod(gw[list(p)])) for p in itertools.product(range(3), repeat=d)]
    ref = [(p, wt, Cf.T @ np.array([evalp(v, d, p) for v in mon])) for p, wt in pts]
    gx, gw = gauss(3)
    fpts = [(list(p), np.prod(gw[list(p)])) for p in itertools.product(range(3), repeat=d - 1)]
    for c in range(nc):
        idx, sg = np.zeros(nb, dtype=int), np.zeros(nb)
        for q in range(2 ** d):
            for e in range(d):
                fc = int(g.cf[c, e, q >> e & 1])
                idx[q * d + e] = dof[(fc, int(g.corner[c, q]))]
                sg[q * d + e] = 1.0 if g.fcells[fc][0] == c else -1.0
        loc = np.zeros((nb, nb))
        for p, wt, V in ref:
            x, D = g.geo(c, p)
            J = abs(np.linalg.det(D))
            P = V @ D.T / J
            loc += wt * J * P @ np.linalg.solve(K[c], P.T)
            if f is not None:
                b[c] += f(x[None])[0] * wt * J
        scale = 1 / 2 ** (d - 1)        # nodal value of a unit total flux? each function carries normal component 1 at its corner
        M[np.ix_(idx, idx)] += loc * np.outer(sg, sg)
        B[idx, c] += sg
        if bc is not None:
            for e in range(d):
                for s in range(2):
                    if not g.bnd[int(g.cf[c, e, s])]:
                        continue
                    for p, wt in fpts:
                        xi = np.insert(gx[p], e, 1.0 if s else -1.0)
                        V = Cf.T @ np.array([evalp(v, d, xi) for v in mon])
                        w[idx] += sg * bc(g.geo(c, xi)[0][None])[0] * V[:, e] * xi[e] * wt
    X = np.linalg.solve(M, np.concatenate([B, w[:, None]], 1))
    return B.T @ X[:, :-1], b + B.T @ X[:, -1]
