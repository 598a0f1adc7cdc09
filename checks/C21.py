"""PFLOTRAN mesh files (HDF5): the two-point-flux step residual and Jacobian on them against an independent discretization of
the cells written to the file; sealed outer boundary; ownership and numbering on any number of processes."""
import ctypes as C
import numpy as np
import hypothesis.strategies as st
import gens as G, meshes as ME, sim as S, cases as CA, flow as F, jac as J
import driver
from h5 import H5
RULE = 'a case counts when the mesh has at least two cells'
ASSUMPTIONS = ['planar faces (tetrahedra: any vertices)', 'right-handed vertex order, as the format demands', 'sealed outer boundary: the mesh reader makes no boundary faces',
               'every process owns at least one cell']
# corner k of the reference hexahedron
CORNER = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]
FACES = {8: [(0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (3, 0, 4, 7), (0, 3, 2, 1), (4, 5, 6, 7)],
         6: [(0, 1, 4, 3), (1, 2, 5, 4), (2, 0, 3, 5), (0, 2, 1), (3, 4, 5)],
         5: [(0, 1, 4), (1, 2, 4), (2, 3, 4), (3, 0, 4), (0, 3, 2, 1)],
         4: [(0, 1, 3), (1, 2, 3), (0, 3, 2), (0, 2, 1)]}
KUHN = [(0, 1, 2, 6), (0, 2, 3, 6), (0, 3, 7, 6), (0, 7, 4, 6), (0, 4, 5, 6), (0, 5, 1, 6)]
# renumberings of one cell that keep it right-handed
TURN = {8: [(1, 2, 3, 0, 5, 6, 7, 4), (3, 2, 6, 7, 0, 1, 5, 4)], 6: [(1, 2, 0, 4, 5, 3), (3, 5, 4, 0, 2, 1)], 5: [(1, 2, 3, 0, 4)], 4: [(1, 2, 0, 3), (1, 3, 2, 0)]}


@st.composite
def pmesh(draw, cells=18):
    kind = draw(st.sampled_from(['hex', 'hex', 'affine', 'columns', 'wedge', 'wedge', 'tet', 'tet', 'pyramid', 'mixed', 'mixed', 'mixed']))
    fat = {'tet': 6, 'pyramid': 6, 'mixed': 3, 'wedge': 2}.get(kind, 1)
    n = [draw(st.integers(1, 4)) for _ in range(3)]
    while n[0] * n[1] * n[2] > max(2, cells * 2 // fat):
        n[n.index(max(n))] -= 1
    return {'kind': kind, 'n': n, 'seed': draw(G.seeds), 'size': draw(st.sampled_from([1.0, 0.05, 10.0, 200.0])), 'turn': draw(st.booleans()), 'perm': draw(st.booleans()),
            'ints': draw(st.booleans()), 'pad': draw(st.booleans())}


def build(m):
    """vertices and cells (vertex lists in the format's order) of a generated mesh, in file order"""
    kind, n = m['kind'], m['n']
    base = {'hex': 'tensor', 'pyramid': 'affine', 'mixed': 'affine', 'tet': 'hex', 'wedge': 'columns'}.get(kind, kind)
    x = ME.coords({'kind': base, 'n': n, 'seed': m['seed'], 'size': m['size']})
    r = np.random.RandomState((m['seed'] + 5) % 2 ** 32)
    cut, col = r.randint(2, size=(n[1], n[0])), r.randint(2, size=(n[1], n[0]))
    extra, cells = [], []
    for k in range(n[2]):
        for j in range(n[1]):
            for i in range(n[0]):
                v = [ME.vid(n, i + a, j + b, k + d) for a, b, d in CORNER]
                wedge = kind == 'wedge' or kind == 'mixed' and col[j, i]
                if kind == 'tet':
                    cells += [[v[q] for q in t] for t in KUHN]
                elif wedge:
                    for t in ([(0, 1, 2), (0, 2, 3)] if cut[j, i] else [(1, 2, 3), (1, 3, 0)]):
                        cells.append([v[q] for q in t] + [v[q + 4] for q in t])
                elif kind == 'pyramid' or kind == 'mixed' and r.randint(2):
                    mid = len(x) + len(extra)
                    c = x[v].mean(axis=0)
                    extra.append(c + r.uniform(-.1, .1, 3) * np.ptp(x[v], axis=0))
                    for q, f in enumerate(FACES[8]):
                        b = [v[a] for a in f[::-1]]           # the base, seen from inside counterclockwise
                        rim = [k == n[2] - 1 and q == 5, k == 0 and q == 4, j == 0 and q == 0, j == n[1] - 1 and q == 2, i == 0 and q == 3, i == n[0] - 1 and q == 1]
                        if kind == 'mixed' and any(rim) and r.randint(2):
                            cells += [[b[0], b[1], b[2], mid], [b[0], b[2], b[3], mid]]
                        else:
                            cells.append(b + [mid])
                else:
                    cells.append(v)
    if extra:
        x = np.vstack([x, extra])
    if m['turn']:
        for c in cells:
            for t in TURN[len(c)]:
                for _ in range(r.randint(4)):
                    c[:] = [c[q] for q in t]
    if m['perm']:
        cells = [cells[q] for q in r.permutation(len(cells))]
        p = r.permutation(len(x))
        inv = np.argsort(p)
        x, cells = x[p], [[int(inv[q]) for q in c] for c in cells]
    return x, cells


class Geom:
    """faces, volumes and centres (vertex means, the format's convention) of a list of cells"""

    def __init__(self, x, cells):
        self.x, self.nc, self.faces, fmap = x, len(cells), [], {}
        self.vol, self.cen = np.zeros(self.nc), np.array([x[c].mean(axis=0) for c in cells])
        self.mean8 = self.cen
        for c, vs in enumerate(cells):
            for f in FACES[len(vs)]:
                loop = [vs[q] for q in f]
                A, fc = ME.poly(x[loop])
                d = A @ (fc - self.cen[c]) / 3
                self.vol[c] += abs(d)
                k = tuple(sorted(loop))
                if k in fmap:
                    self.faces[fmap[k]]['cells'].append(c)
                else:
                    fmap[k] = len(self.faces)
                    self.faces.append({'v': loop, 'cells': [c], 'A': A if d > 0 else -A, 'cen': fc, 'area': np.linalg.norm(A)})


class Sim(S.Sim):
    def __init__(self, L, c):
        self.L, self.c = L, c
        self.x, self.cells = build(c['mesh'])
        self.nc = len(self.cells)
        self.mean8 = np.array([self.x[v].mean(axis=0) for v in self.cells])
        w = 8 if c['mesh']['pad'] else max(len(v) for v in self.cells)
        R = np.zeros((self.nc, w + 1))
        for q, v in enumerate(self.cells):
            R[q, 0] = len(v)
            R[q, 1:1 + len(v)] = np.array(v) + 1
        L.call('PetscBarrier', None)
        if L.rank == 0:
            H5(L.petsc).write('mesh.h5', {'Domain/Cells': R.astype(np.int32) if c['mesh']['ints'] else R, 'Domain/Vertices': self.x})
        L.call('PetscBarrier', None)
        opts = [('tdy_read_pflotran_mesh', 'mesh.h5')]
        if c.get('gravity') is not None:
            opts.append(('tdy_gravity', repr(float(c['gravity']))))
        if c.get('density') is not None:
            opts.append(('tdy_water_density', ['constant', 'exponential', 'batzle_and_wang'][c['density']]))
        if c.get('visc') is not None:
            opts.append(('tdy_water_viscosity', ['constant', 'batzle_and_wang'][c['visc']]))
        L.options(opts)
        self.t = t = L.new()
        t('TDySetMode', 0)
        t('TDySetDiscretization', S.DISC['FV_TPF'])
        t('TDySetFromOptions')
        self.empty = L.so.shim_min_ugrid(t.h) <= 0
        if self.empty:
            return
        self.materials(c['mat'])
        self.setup()

    def map(self):
        t = self.t
        n, k = t.mi('num_cells'), t.mi('num_cells_local')
        self.dmcen = t.m('c.centroid', 3 * n, C.c_double).reshape(-1, 3)
        self.dmvol = t.m('c.volume', n, C.c_double)
        self.nat = t.m('c.natural_id', n)
        self.lat = self.lookup(self.dmcen)
        self.own = np.arange(k)
        self.ownlat = self.lat[:k]


@st.composite
def cases(draw, cells=18, jac=False):
    c = {'mesh': draw(pmesh(cells)), 'mat': draw(CA.material()), 'P': draw(CA.pressure()), 'Pprev': draw(CA.pressure()), 'dt': draw(G.logf(1e-2, 1e6)),
         'gravity': draw(st.sampled_from([None, 0.0, 500.0])), 'density': draw(st.sampled_from([None, 0, 1, 2])), 'visc': draw(st.sampled_from([None, 1])), 'bctype': 'neumann'}
    if draw(st.booleans()):
        c['curves'] = {'seed': draw(G.seeds)}
    if draw(st.integers(0, 5)) == 0:
        c['P'].update(lo=-3e7, hi=draw(st.sampled_from([-1e6, 1e5])))
        if draw(st.booleans()):
            c['mat']['dry'] = True
    c['dirs'] = draw(G.seeds)
    return c


def running(f):
    def run(L, c):
        s = Sim(L, c)
        o = {'_na': 'a process without cells'} if s.empty else f(s, c)
        s.close()
        return o
    return run


def observe(s, c):
    s.snes()
    P, Pp = CA.field(c['P'], s.nc), CA.field(c['Pprev'], s.nc)
    s.prev(Pp, c['dt'])
    r = s.residual(P)
    r2 = s.residual(P)
    a = s.own
    return {'r': [float(v) for v in r[s.ownlat]], 'r2': [float(v) for v in r2[s.ownlat]], 'vol': s.dmvol[a].tolist(), 'lat': s.ownlat.tolist(),
            'nat': s.nat.tolist(), 'all': s.lat.tolist()}


run = running(observe)


def jobserve(s, c):
    s.snes()
    P, Pp = CA.field(c['P'], s.nc), CA.field(c['Pprev'], s.nc)
    s.prev(Pp, c['dt'])

    def jac(U):
        A, B = C.c_void_p(), C.c_void_p()
        s.L.call('SNESGetJacobian', s.s, C.byref(A), C.byref(B), None, None)
        s.set(s._u, U)
        s.L.call('SNESComputeJacobian', s.s, s._u, A, B)
        return B
    return J.observe(s, P, J.directions(c, s.nc, 1), J.H, s.residual, jac)


jrun = running(jobserve)


def reference(c):
    g = Geom(*build(c['mesh']))
    M = S.Mat(c['mat'], g.nc)
    P, Pp = CA.field(c['P'], g.nc), CA.field(c['Pprev'], g.nc)
    return (g,) + F.richards_tpf(g, c, M, P, Pp, c['dt'], None, lambda k: 'neumann')


def oracle(c, o):
    g, ref, mag, info = reference(c)
    o['info'] = info
    rk = o['ranks'] if 'ranks' in o else [o]
    bad = []
    seen = sorted(l for q in rk for l in q['lat'])
    if seen != list(range(g.nc)):
        return ['the processes own cells %s of a mesh of %d cells' % (seen, g.nc)]
    for k, q in enumerate(rk):
        for a, b in zip(q['nat'], q['all']):
            if a != b:
                bad.append('process %d takes cell %d of the file for cell %d' % (k, b, a))
                break
        for l, v, r, r2 in zip(q['lat'], q['vol'], q['r'], q['r2']):
            if not abs(v - g.vol[l]) <= 1e-9 * g.vol[l]:
                bad.append('cell %d: volume %r, the file has %r' % (l, v, g.vol[l]))
            if r != r2:
                bad.append('cell %d: evaluating the residual twice gives %r and %r' % (l, r, r2))
            if not abs(r - ref[l]) <= 1e-9 * mag[l] + 1e-300:
                bad.append('cell %d: residual %r, reference %r (%.2e of the terms)' % (l, r, ref[l], abs(r - ref[l]) / mag[l]))
    return bad[:6]


def nontrivial(c, o):
    return sum(len(q['lat']) for q in (o['ranks'] if 'ranks' in o else [o])) > 1


def classify(c, o):
    rk = o['ranks'] if 'ranks' in o else [o]
    return [c['mesh']['kind'], 'ghosts' if any(len(q['all']) > len(q['lat']) for q in rk) else 'no ghosts'] + ['has ' + k for k in (o.get('info') or {})]


def joracle(c, o):
    g, ref, mag, info = reference(c)
    bad, o['used'] = J.compare(o, g.nc, mag * 2e-16)
    return bad


def jnt(c, o):
    return o.get('used', 0) > 0


def jclass(c, o):
    return [c['mesh']['kind']]


PARTS = [driver.Part('mesh', cases, 'run', oracle, (300, 10000), nontrivial=nontrivial, classify=classify),
         driver.Part('mesh_asan', cases, 'run', oracle, (60, 2000), nontrivial=nontrivial, classify=classify, variant='asan'),
         driver.Part('mesh2', lambda: cases(cells=30), 'run', oracle, (100, 3000), np=2, nontrivial=nontrivial, classify=classify),
         driver.Part('mesh_asan2', lambda: cases(cells=24), 'run', oracle, (16, 500), np=2, nontrivial=nontrivial, classify=classify, variant='asan'),
         driver.Part('mesh3', lambda: cases(cells=40), 'run', oracle, (60, 1500), np=3, nontrivial=nontrivial, classify=classify),
         driver.Part('jac', cases, 'jrun', joracle, (120, 4000), nontrivial=jnt, classify=jclass),
         driver.Part('jac2', lambda: cases(cells=30), 'jrun', joracle, (40, 1000), np=2, nontrivial=jnt, classify=jclass)]
