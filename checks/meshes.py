"""Hexahedral lattice meshes: generation (from a small JSON description), independent geometry, nothing of the library.
Lattice ids: vertex i + (nx+1)(j + (ny+1)k), cell i + nx(j + ny k); in 'wedge' meshes every lattice cell is cut by a
vertical plane into two prisms, ids 2c and 2c+1."""
import numpy as np
import hypothesis.strategies as st
import gens as G

# hexahedron faces as corner offsets (bits x,y,z), ordered around the face
FACES = [((0, 0, 0), (0, 0, 1), (0, 1, 1), (0, 1, 0)), ((1, 0, 0), (1, 1, 0), (1, 1, 1), (1, 0, 1)),
         ((0, 0, 0), (1, 0, 0), (1, 0, 1), (0, 0, 1)), ((0, 1, 0), (0, 1, 1), (1, 1, 1), (1, 1, 0)),
         ((0, 0, 0), (0, 1, 0), (1, 1, 0), (1, 0, 0)), ((0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1))]


@st.composite
def mesh(draw, kinds=('tensor', 'affine', 'columns', 'wedge'), nmax=3, cells=27, dims_min=1, size=True):
    """nmax bounds each direction, cells the total"""
    kind = draw(st.sampled_from(list(kinds)))
    n = []
    for d in range(3):
        n.append(draw(st.integers(dims_min, nmax)))
    while n[0] * n[1] * n[2] > cells:
        n[n.index(max(n))] -= 1
    return {'kind': kind, 'n': n, 'seed': draw(G.seeds) if kind != 'cube' else 0, 'size': draw(st.sampled_from([1.0, 0.05, 10.0, 200.0])) if size else 1.0}


def coords(m):
    n, kind, s = m['n'], m['kind'], m['size']
    r = np.random.RandomState(m['seed'] % 2 ** 32)
    nn = max(n)
    ax = [np.arange(k + 1, dtype=float) / nn for k in n]
    if kind in ('tensor', 'affine', 'columns', 'wedge'):
        for d in range(3):
            h = r.uniform(0.5, 1.5, n[d])
            ax[d] = np.concatenate([[0], np.cumsum(h)]) / nn
    Z, Y, X = np.meshgrid(ax[2], ax[1], ax[0], indexing='ij')
    x = np.stack([X, Y, Z], axis=-1)          # [k,j,i,3]
    if kind == 'affine':
        # any affine map that keeps vertical lines vertical (the library needs vertical columns)
        A = None
        while A is None or np.linalg.det(A) < 0.3:
            A = np.eye(3) + r.uniform(-0.35, 0.35, (3, 3))
            A[0, 2] = A[1, 2] = 0.0
        x = x @ A.T
    elif kind in ('columns', 'wedge'):
        # perturb the plan view, keep columns vertical, layer interfaces planar
        dx = r.uniform(-0.22, 0.22, x.shape[1:3] + (2,)) / nn * 0.7
        x[..., :2] += dx[None]
        z0 = x[..., 2].copy()
        a, b = r.uniform(-0.3, 0.3, 2)
        a2, b2 = r.uniform(-0.1, 0.1, 2) / nn      # slopes differ slightly per layer
        zt = max(z0.max(), 1e-9)
        x[..., 2] = z0 + a * x[..., 0] + b * x[..., 1] + z0 / zt * (a2 * x[..., 0] + b2 * x[..., 1])
    elif kind == 'hex':
        dx = r.uniform(-0.22, 0.22, x.shape[1:3] + (2,)) / nn * 0.7
        x[..., :2] += dx[None]
        x[..., 2] += r.uniform(-0.2, 0.2, x.shape[:3]) / nn * 0.7
    return np.ascontiguousarray((x * s).reshape(-1, 3))


def vid(n, i, j, k):
    return i + (n[0] + 1) * (j + (n[1] + 1) * k)


def cells_of(m):
    """per cell: (vertex ids in the order the mesh library wants them, faces as vertex loops)"""
    n = m['n']
    out = []
    cut = np.random.RandomState((m['seed'] + 77) % 2 ** 32).randint(2, size=(n[1], n[0]))
    for k in range(n[2]):
        for j in range(n[1]):
            for i in range(n[0]):
                v = lambda a, b, d: vid(n, i + a, j + b, k + d)
                if m['kind'] == 'wedge':
                    q = [(0, 0), (1, 0), (1, 1), (0, 1)]
                    tris = [(0, 1, 2), (0, 2, 3)] if cut[j, i] else [(1, 2, 3), (1, 3, 0)]
                    for t in tris:
                        lo = [v(*q[a], 0) for a in t]
                        hi = [v(*q[a], 1) for a in t]
                        f = [lo[::-1], hi] + [[lo[a], lo[(a + 1) % 3], hi[(a + 1) % 3], hi[a]] for a in range(3)]
                        out.append((lo + hi, f))
                else:
                    out.append(([v(0, 0, 0), v(0, 1, 0), v(1, 1, 0), v(1, 0, 0), v(0, 0, 1), v(1, 0, 1), v(1, 1, 1), v(0, 1, 1)],
                                [[v(a, b, d) for a, b, d in f] for f in FACES]))
    return out


def ncells(m):
    return m['n'][0] * m['n'][1] * m['n'][2] * (2 if m['kind'] == 'wedge' else 1)


def means(m, x):
    """mean of the corners of each cell: identifies a cell in space"""
    return np.array([x[vs].mean(axis=0) for vs, _ in cells_of(m)])


def poly(v):
    """area vector and centroid of a polygon (exact when planar)"""
    c0 = v.mean(axis=0)
    A = np.zeros(3)
    tri = []
    for a in range(len(v)):
        p, q = v[a], v[(a + 1) % len(v)]
        t = 0.5 * np.cross(p - c0, q - c0)
        A += t
        tri.append((t, (p + q + c0) / 3))
    n = A / np.linalg.norm(A)
    w = np.array([t @ n for t, _ in tri])
    cen = sum(wi * c for wi, (_, c) in zip(w, tri)) / w.sum()
    return A, cen


class Geom:
    """geometry of a lattice mesh, by the divergence theorem"""

    def __init__(self, m, x=None):
        self.n = n = m['n']
        self.x = x = coords(m) if x is None else x
        C = cells_of(m)
        self.nc = len(C)
        self.cellv, self.faces, fmap = [], [], {}
        self.cen, self.vol = np.zeros((self.nc, 3)), np.zeros(self.nc)
        self.mean8 = np.zeros((self.nc, 3))
        self.cellf = []
        for c, (cv, floops) in enumerate(C):
            self.cellv.append(list(cv))
            fl = []
            for vs in floops:
                kf = tuple(sorted(vs))
                if kf in fmap:
                    self.faces[fmap[kf]]['cells'].append(c)
                else:
                    A, fc = poly(x[vs])
                    fmap[kf] = len(self.faces)
                    self.faces.append({'v': vs, 'cells': [c], 'A': A, 'cen': fc, 'area': np.linalg.norm(A)})
                fl.append(fmap[kf])
            self.cellf.append(fl)
            c0 = x[cv].mean(axis=0)
            self.mean8[c] = c0
            V, M = 0.0, np.zeros(3)
            for f in fl:
                F = self.faces[f]
                A = F['A'] if F['cells'][0] == c else -F['A']
                v = A @ (F['cen'] - c0) / 3
                V += v
                M += v * (0.75 * F['cen'] + 0.25 * c0)
            self.vol[c], self.cen[c] = V, M / V
        self.nf = len(self.faces)
        # vertex -> cells, faces
        self.nv = len(x)
        self.vcells = [[] for _ in range(self.nv)]
        self.vfaces = [[] for _ in range(self.nv)]
        for c, vs in enumerate(self.cellv):
            for v in vs:
                self.vcells[v].append(c)
        for f, F in enumerate(self.faces):
            for v in F['v']:
                self.vfaces[v].append(f)

    def outward(self, f, c):
        F = self.faces[f]
        return F['A'] if F['cells'][0] == c else -F['A']

    def lookup(self, x):
        """lattice cell whose corner mean is nearest to each point"""
        d = ((np.asarray(x)[:, None, :] - self.mean8[None]) ** 2).sum(-1)
        return d.argmin(axis=1)
