"""Worker side: builds a dycore from a JSON case and observes it through the public interface.
case keys used: mesh, mode, disc, mat, bc, opts, gravity, curves, Sr."""
import ctypes as C
import numpy as np
import meshes as ME

MODE = {'RICHARDS': 0, 'TH': 1, 'SALINITY': 2}
DISC = {'MPFA_O': 0, 'MPFA_O_DAE': 1, 'MPFA_O_TRANSIENTVAR': 2, 'BDM': 3, 'WY': 4, 'FV_TPF': 5}
BC = {'dirichlet': 0, 'neumann': 1, 'seepage': 2}


def rng(seed):
    return np.random.RandomState(seed % 2 ** 32)


def rand_tensor(r, kind, scale):
    """SPD 3x3"""
    if kind == 'iso':
        return np.eye(3) * scale * 10 ** r.uniform(-1, 1)
    if kind == 'diag':
        return np.diag(scale * 10 ** r.uniform(-1, 1, 3))
    Q, _ = np.linalg.qr(r.normal(size=(3, 3)))
    K = Q @ np.diag(scale * 10 ** r.uniform(-.5, .5, 3)) @ Q.T
    return 0.5 * (K + K.T)


class Mat:
    """cell-wise material values in lattice order, from mat = {seed, K, vary, ...}; shared by worker and oracle"""

    def __init__(self, mat, nc):
        r = rng(mat['seed'])
        k = nc if mat.get('vary', True) else 1
        rep = lambda a: a if k == nc else np.repeat(a, nc, axis=0)
        sc = mat.get('scale', 1e-11)
        self.kind = mat.get('K', 'full')
        self.K = rep(np.array([rand_tensor(r, self.kind, sc) for _ in range(k)]))
        self.phi = rep(r.uniform(0.05, 0.6, k))
        self.Sr = rep(r.uniform(0.0, 0.4, k)) if mat.get('Sr', True) else np.full(nc, 0.15)
        if mat.get('dry'):
            self.Sr = self.Sr * 0.0
        self.kappa = rep(np.array([rand_tensor(r, self.kind, 1.0) for _ in range(k)]))
        self.rhos = rep(r.uniform(1500, 3000, k))
        self.cs = rep(r.uniform(500, 2000, k))
        self.D = rep(np.array([rand_tensor(r, self.kind, 1e-6) for _ in range(k)]))
        self.W = rep(r.uniform(40, 80, k))
        self.const = k == 1 and nc >= 1


def curve_params(cv, nc):
    """cv = {seed}: lattice-ordered per-cell curve types and parameters: sat (type, params), kr (type, params)"""
    r = rng(cv['seed'])
    out = []
    for c in range(nc):
        st = int(r.randint(2)) if cv.get('mix', True) else 1
        sp = [float(r.uniform(1, 5)), float(r.uniform(.4, 2)), float(10 ** r.uniform(-5, -3.5))] if st == 0 else \
             [float(r.uniform(.3, .85)), float(10 ** r.uniform(-5, -3.5))]
        kt = int(r.randint(2)) if cv.get('mix', True) else 1
        kp = [float(r.uniform(1, 6))] if kt == 0 else [float(r.uniform(.3, .85)), .995, float(r.uniform(.9, .995)), 1.0, .005]
        out.append((st, sp, kt, kp))
    return out


def bfun(b):
    """boundary function from b = {'a': [c0, cx, cy, cz, s]}: linear plus a smooth wave"""
    a = b['a']

    def f(x):
        x = np.asarray(x)
        return a[0] + x @ np.array(a[1:4]) + a[4] * np.sin(3 * x[:, 0] + 5 * x[:, 1] - 2 * x[:, 2])
    return f


def regions(c, nc):
    """region of each lattice cell, or None"""
    q = c.get('regions')
    if not q:
        return None
    r = rng(q['seed'])
    lab = np.array(q['labels'])
    if q['kind'] == 'slab':                    # cut across one lattice direction
        n = c['mesh']['n']
        w = nc // (n[0] * n[1] * n[2])         # wedges: two cells per lattice cell
        i = np.arange(nc) // w
        k = [i % n[0], i // n[0] % n[1], i // (n[0] * n[1])][q['axis']]
        return lab[np.minimum(k * len(lab) // max(n[q['axis']], 1), len(lab) - 1)]
    return lab[r.randint(0, len(lab), nc)]


def vg_opts(c):
    """parameters of the default curves"""
    return [('tdy_vangenuchten_param_m', repr(c['vg'][0])), ('tdy_vangenuchten_param_alpha', repr(c['vg'][1]))] if c.get('vg') else []


def natural_cells(c, nc):
    """lattice cell of each natural number, for meshes made by Sim"""
    return rng(c['perm']).permutation(nc) if c.get('perm') else np.arange(nc)


def write_vec(path, a):
    """a PETSc binary vector file"""
    a = np.asarray(a, dtype='>f8')
    with open(path, 'wb') as f:
        f.write(np.array([1211214, a.size], dtype='>i4').tobytes() + a.tobytes())


def gmsh(m, x, perm=None):
    """the mesh in Gmsh's format (version 2.2)"""
    r = rng(perm or 0)
    vo = r.permutation(len(x)) if perm else np.arange(len(x))
    inv = np.argsort(vo)
    out = ['$MeshFormat', '2.2 0 8', '$EndMeshFormat', '$Nodes', str(len(x))]
    out += ['%d %r %r %r' % ((i + 1,) + tuple(float(v) for v in x[k])) for i, k in enumerate(vo)]
    out += ['$EndNodes', '$Elements']
    els = []
    if m['kind'] == 'wedge':
        els = [(6, q[0]) for q in ME.cells_of(m)]
    else:
        n = m['n']
        for k in range(n[2]):
            for j in range(n[1]):
                for i in range(n[0]):
                    els.append((5, [ME.vid(n, i + a, j + b, k + d) for d in (0, 1) for a, b in ((0, 0), (1, 0), (1, 1), (0, 1))]))
    if perm:
        els = [els[i] for i in r.permutation(len(els))]
    out.append(str(len(els)))
    out += ['%d %d 2 1 1 %s' % (i + 1, ty, ' '.join(str(inv[v] + 1) for v in vs)) for i, (ty, vs) in enumerate(els)]
    return '\n'.join(out + ['$EndElements', ''])


class Sim:
    def __init__(self, L, c, setup=True):
        self.L, self.c = L, c
        m = c['mesh']
        self.n = m['n']
        self.x = ME.coords(m)
        self.nc = ME.ncells(m)
        self.mean8 = ME.means(m, self.x)
        opts = list(c.get('opts', []))
        if c.get('gravity') is not None:
            opts.append(('tdy_gravity', repr(float(c['gravity']))))
        if c.get('gmatrix'):
            opts.append(('tdy_mpfao_gmatrix_method', c['gmatrix']))
        if c.get('bctype'):
            opts.append(('tdy_%s_boundary_condition_type' % ('fvtpf' if c.get('disc') == 'FV_TPF' else 'mpfao'), c['bctype'] + '_bc'))
        if c.get('density') is not None:
            opts.append(('tdy_water_density', ['constant', 'exponential', 'batzle_and_wang'][c['density']]))
        if c.get('visc') is not None:
            opts.append(('tdy_water_viscosity', ['constant', 'batzle_and_wang'][c['visc']]))
        opts += vg_opts(c)
        if c.get('meshsrc') == 'options':
            j = ','.join
            opts += [('dm_plex_dim', '3'), ('dm_plex_simplex', '0'), ('dm_plex_box_faces', j(str(k) for k in self.n)), ('dm_plex_box_lower', '0,0,0'),
                     ('dm_plex_box_upper', j(repr(float(v)) for v in self.x.max(0)))]
        elif c.get('meshsrc') == 'file':
            L.call('PetscBarrier', None)
            if L.rank == 0:
                open('mesh.msh', 'w').write(gmsh(m, self.x, c.get('perm')))
            L.call('PetscBarrier', None)
            opts.append(('tdy_read_mesh', 'mesh.msh'))
        if c.get('regions'):
            w = 1 if c.get('mode', 'RICHARDS') == 'RICHARDS' and c.get('disc') != 'MPFA_O_DAE' else 2
            a = np.zeros((self.nc, w))
            a[:, 0] = regions(c, self.nc)[natural_cells(c, self.nc)]
            a[:, 1:] = np.arange(self.nc)[:, None] + 100        # entries of the other unknowns say nothing
            L.call('PetscBarrier', None)
            if L.rank == 0:
                write_vec('regions.bin', a.reshape(-1))
            L.call('PetscBarrier', None)
            opts.append(('tdy_connected_region', 'regions.bin'))
        if c.get('byopt'):      # mode and discretization from the options database
            opts += [('tdy_mode', c.get('mode', 'RICHARDS')), ('tdy_discretization', c.get('disc', 'MPFA_O'))]
        L.options(opts)
        self.t = t = L.new()
        if c.get('byopt') != 'bare':
            t('TDySetMode', MODE['RICHARDS' if c.get('byopt') else c.get('mode', 'RICHARDS')])
            t('TDySetDiscretization', DISC[c['byopt'] if c.get('byopt') else c.get('disc', 'MPFA_O')])
        if c.get('meshsrc'):
            pass
        elif c.get('perm') or m['kind'] == 'wedge':
            # explicit connectivity, possibly with shuffled cell and vertex numbering
            r = rng(c.get('perm') or 0)
            self.cell_order = r.permutation(self.nc) if c.get('perm') else np.arange(self.nc)
            self.vert_order = r.permutation(len(self.x)) if c.get('perm') else np.arange(len(self.x))
            inv = np.argsort(self.vert_order)
            conn = ME.cells_of(m)
            L.mesh_cells([inv[conn[q][0]] for q in self.cell_order], self.x[self.vert_order])
        else:
            L.mesh_box(self.n, coords=self.x)
        if not c.get('meshsrc'):
            t.use_mesh()
        t('TDySetFromOptions')
        dm = C.c_void_p()
        t('TDyGetDM', C.byref(dm))
        self.empty = L.so.shim_min_cells(dm) <= 0
        if self.empty:
            return          # some process got no cell: the library needs at least one per process (listed finding)
        if c.get('mat'):
            self.materials(c['mat'])
        if c.get('bc'):
            t('TDySetBoundaryPressureFunction', L.spfun(bfun(c['bc']), 3))
        if c.get('bcT'):
            t('TDySetBoundaryTemperatureFunction', L.spfun(bfun(c['bcT']), 3))
        if c.get('bcS'):
            t('TDySetBoundarySalineConcentrationFunction', L.spfun(bfun(c['bcS']), 3))
        if c.get('forcing'):
            t('TDySetForcingFunction', L.spfun(bfun(c['forcing']), 3))
        if setup:
            self.setup()

    def setup(self):
        t, L = self.t, self.L
        t('TDySetup')
        self.dm = C.c_void_p()
        t('TDyGetDM', C.byref(self.dm))
        self.map()
        if self.c.get('curves'):
            self.set_curves(self.c['curves'])

    def lookup(self, x):
        d = ((np.asarray(x)[:, None, :] - self.mean8[None]) ** 2).sum(-1)
        return d.argmin(axis=1)

    def materials(self, mat):
        t, L = self.t, self.L
        M = self.M = Mat(mat, self.nc)
        if mat.get('vary', True):
            g = lambda a: (lambda x: a[self.lookup(x)])
            t('TDySetPorosityFunction', L.spfun(g(M.phi), 3))
            if M.kind == 'iso':
                t('TDySetIsotropicPermeabilityFunction', L.spfun(g(M.K[:, 0, 0]), 3))
                t('TDySetIsotropicThermalConductivityFunction', L.spfun(g(M.kappa[:, 0, 0]), 3))
                t('TDySetIsotropicSalineDiffusivityFunction', L.spfun(g(M.D[:, 0, 0]), 3))
            elif M.kind == 'diag':
                d = lambda K: np.stack([K[:, i, i] for i in range(3)], 1)
                t('TDySetDiagonalPermeabilityFunction', L.spfun(g(d(M.K)), 3, 3))
                t('TDySetDiagonalThermalConductivityFunction', L.spfun(g(d(M.kappa)), 3, 3))
                t('TDySetDiagonalSalineDiffusivityFunction', L.spfun(g(d(M.D)), 3, 3))
            else:
                t('TDySetTensorPermeabilityFunction', L.spfun(g(M.K.reshape(-1, 9)), 3, 9))
                t('TDySetTensorThermalConductivityFunction', L.spfun(g(M.kappa.reshape(-1, 9)), 3, 9))
                t('TDySetTensorSalineDiffusivityFunction', L.spfun(g(M.D.reshape(-1, 9)), 3, 9))
            t('TDySetResidualSaturationFunction', L.spfun(g(M.Sr), 3))
            t('TDySetSoilDensityFunction', L.spfun(g(M.rhos), 3))
            t('TDySetSoilSpecificHeatFunction', L.spfun(g(M.cs), 3))
            t('TDySetSalineMolecularWeightFunction', L.spfun(g(M.W), 3))
        else:
            arr = lambda a: np.ascontiguousarray(a, dtype=float)
            t('TDySetConstantPorosity', M.phi[0])
            for nm, K in (('Permeability', M.K[0]), ('ThermalConductivity', M.kappa[0]), ('SalineDiffusivity', M.D[0])):
                if M.kind == 'iso':
                    t('TDySetConstantIsotropic' + nm, K[0, 0])
                elif M.kind == 'diag':
                    t('TDySetConstantDiagonal' + nm, arr(np.diag(K)))
                else:
                    t('TDySetConstantTensor' + nm, arr(K).reshape(-1))
            t('TDySetConstantResidualSaturation', M.Sr[0])
            t('TDySetConstantSoilDensity', M.rhos[0])
            t('TDySetConstantSoilSpecificHeat', M.cs[0])
            t('TDySetConstantSalineMolecularWeight', M.W[0])

    def map(self):
        """dm cell -> lattice cell; global row of each owned cell"""
        mx = self.nc * 4 + 8
        n = C.c_int()
        cen, vol, go = np.zeros(3 * mx), np.zeros(mx), np.zeros(mx, dtype=np.int32)
        self.L.call('shim_cells', self.dm, mx, C.byref(n), cen, vol, go)
        n = n.value
        self.dmcen = cen[:3 * n].reshape(-1, 3)
        self.dmvol = vol[:n]
        self.goff = go[:n]
        self.lat = self.lookup(self.dmcen)
        own = self.goff >= 0
        self.own = np.nonzero(own)[0][np.argsort(self.goff[own])]
        self.ownlat = self.lat[self.own]          # lattice cell of each owned cell in global-vector order

    def set_curves(self, cv):
        """private curve interface: per-cell saturation and relative-permeability models"""
        P = curve_params(cv, self.nc)
        t, L = self.t, self.L
        from curves import smoothing
        lat = self.lat
        S, K = t.obj('saturation'), t.obj('rel_perm')
        for typ in (0, 1):
            for h, nm, ti, pi in ((S, 'Saturation', 0, 1), (K, 'RelativePermeability', 2, 3)):
                idx = [c for c in range(len(lat)) if P[lat[c]][ti] == typ]
                par = []
                for c in idx:
                    q = list(P[lat[c]][pi])
                    if nm[0] == 'R' and typ == 1:
                        q += smoothing(L, *q)
                    par += q
                L.call(nm + 'SetType', h, typ, len(idx), np.array(idx, dtype=np.int32), np.array(par, dtype=float))

    # ---------------------------------------------------------------- vectors
    def create(self):
        self.t('TDyCreateVectors')
        self.t('TDyCreateJacobian')
        self.ndof = 1 if self.c.get('mode', 'RICHARDS') == 'RICHARDS' and self.c.get('disc') != 'MPFA_O_DAE' else 2

    def gvec(self, lat=None):
        """global vector filled from a lattice-ordered array (nc,) or (nc, ndof)"""
        v = C.c_void_p()
        self.t('TDyCreateGlobalVector', C.byref(v))
        if lat is not None:
            self.set(v, lat)
        return v

    def set(self, v, lat):
        a = np.asarray(lat, dtype=float).reshape(self.nc, -1)
        self.L.vec_set(v, a[self.ownlat].reshape(-1))

    def get(self, v):
        """lattice-ordered values, NaN where not owned"""
        a = self.L.vec_get(v)
        w = a.size // max(1, len(self.ownlat))
        out = np.full((self.nc, max(w, 1)), np.nan)
        if a.size:
            out[self.ownlat] = a.reshape(len(self.ownlat), w)
        return out[:, 0] if w <= 1 else out

    # ---------------------------------------------------------------- nonlinear problem
    def snes(self, jac=True):
        self.create()
        L, t = self.L, self.t
        s = C.c_void_p()
        L.call('SNESCreate', C.c_void_p(L.so.shim_comm(C.c_int(1))), C.byref(s))
        L.call('TDySetSNESFunction', s, t.h)
        if jac:
            L.call('TDySetSNESJacobian', s, t.h)
        self.s = s
        return s

    def ts(self, jac=True):
        self.create()
        L, t = self.L, self.t
        h = C.c_void_p()
        L.call('TSCreate', C.c_void_p(L.so.shim_comm(C.c_int(1))), C.byref(h))
        L.call('TSSetDM', h, self.dm)
        L.call('TDySetIFunction', h, t.h)
        if jac:
            L.call('TDySetIJacobian', h, t.h)
        self.tsh = h
        return h

    def ifunction(self, U, Ut):
        if not hasattr(self, '_u'):
            self._u, self._r, self._ut = self.gvec(), self.gvec(), self.gvec()
        self.set(self._u, U)
        self.set(self._ut, Ut)
        self.L.call('TSComputeIFunction', self.tsh, C.c_double(0), self._u, self._ut, self._r, 0)
        return self.get(self._r)

    def prev(self, P, dt):
        t = self.t
        t('TDySetDtimeForSNESSolver', float(dt))
        v = self.gvec(P)
        t('TDySetPreviousSolutionForSNESSolver', v)
        self.L.destroy('Vec', v)
        t('TDyPreSolveSNESSolver')

    def residual(self, P):
        if not hasattr(self, '_u'):
            self._u, self._r = self.gvec(), self.gvec()
        self.set(self._u, P)
        self.L.call('SNESComputeFunction', self.s, self._u, self._r)
        return self.get(self._r)

    def jacobian(self, P):
        J, Jp = C.c_void_p(), C.c_void_p()
        self.L.call('SNESGetJacobian', self.s, C.byref(J), C.byref(Jp), None, None)
        self.set(self._u, P)
        self.L.call('SNESComputeJacobian', self.s, self._u, J, Jp)
        return self.dense(Jp)

    def dense(self, M):
        """np=1: dense matrix in lattice order (rows and columns cell-major with ndof)"""
        D = self.L.mat_dense(M)
        w = D.shape[0] // self.nc
        idx = np.zeros(self.nc, dtype=int)
        idx[self.ownlat] = np.arange(self.nc)
        full = (idx[:, None] * w + np.arange(w)[None]).reshape(-1)
        return D[np.ix_(full, full)]

    def close(self):
        for a in ('_u', '_r', '_ut'):
            if hasattr(self, a):
                self.L.destroy('Vec', getattr(self, a))
        if hasattr(self, 's'):
            self.L.destroy('SNES', self.s)
        if hasattr(self, 'tsh'):
            self.L.destroy('TS', self.tsh)
        self.t.destroy()


def closing(f):
    """run(L, c) wrapper: f(sim, c), always destroying the dycore on success"""
    def run(L, c):
        s = Sim(L, c)
        o = {'_na': 'a process without cells'} if s.empty else f(s, c)
        s.close()
        return o
    return run
