"""Requests that cannot be carried out - calls before their time, of another discretization, of an unsupported combination, with unknown
names or values - are refused with an error: no crash, and everything that follows is as if they had not been made."""
import ctypes as C
import itertools
import numpy as np
import hypothesis.strategies as st
import gens as G, meshes as ME, sim as S, fe
import C22
import driver, tdy
RULE = 'a case counts when at least three requests were refused and something was evaluated after the first of them (part ends: when the request was refused)'
ASSUMPTIONS = ['with AddressSanitizer, unknown values of enumerated options are left out: PETSc 3.17 itself writes one byte too far while composing that message',
               'a failed TDySetFromOptions is tried again with the option that was wrong taken out, nothing else changed',
               'a failed TDySetup, TDyDriverInitializeTDy or TDySetFromOptions of part ends is followed by TDyDestroy only',
               'vectors and matrices given to the library are of the sizes it asks for unless the request is to be refused before they matter']
SCALAR = ['Porosity', 'ResidualSaturation', 'SoilDensity', 'SoilSpecificHeat', 'SalineMolecularWeight']
TENSOR = ['Permeability', 'ThermalConductivity', 'SalineDiffusivity']
COND = ['Forcing', 'EnergyForcing', 'SalinitySource', 'BoundaryPressure', 'BoundaryVelocity', 'BoundaryTemperature', 'BoundarySalineConcentration']
SELECT = ['Forcing', 'EnergyForcing', 'BoundaryPressure', 'BoundaryVelocity', 'BoundaryTemperature', 'BoundarySalineConcentration']
NEEDS = {1: ('ThermalConductivity', 'SoilDensity', 'SoilSpecificHeat'), 2: ('SalineDiffusivity', 'SalineMolecularWeight')}
BADOPT = [('tdy_water_density', 'no_such_density'), ('tdy_water_viscosity', 'no_such_viscosity'), ('tdy_water_enthalpy', 'no_such_enthalpy'), ('tdy_mode', 'no_such_mode'),
          ('tdy_discretization', 'no_such_discretization'), ('tdy_pressure_bc_func', 'no such function'), ('tdy_velocity_bc_func', 'no such function'),
          ('tdy_temperature_bc_func', 'no such function'), ('tdy_read_mesh', 'no_such_file.msh')]
MPFAO, FE = (0, 1, 2), (3, 4)


def setters(L):
    """every call that gives a material property or a condition: (name, argument)"""
    k, v, t3, i = L.spfun(lambda x: .2 + 0 * x[:, 0], 3), L.spfun(lambda x: np.ones((len(x), 3)), 3, 3), L.spfun(lambda x: np.tile(np.eye(3).reshape(-1), (len(x), 1)), 3, 9), \
        L.spifun(lambda x: np.zeros(len(x)), 3)
    out = [(f % p, a) for p in SCALAR for f, a in (('TDySetConstant%s', .25), ('TDySet%sFunction', k))]
    for p in TENSOR:
        out += [('TDySetConstantIsotropic' + p, .5), ('TDySetIsotropic%sFunction' % p, k), ('TDySetConstantDiagonal' + p, np.array([1., 2., 3.])), ('TDySetDiagonal%sFunction' % p, v),
                ('TDySetConstantTensor' + p, np.eye(3).reshape(-1)), ('TDySetTensor%sFunction' % p, t3)]
    return out + [('TDySet%sFunction' % p, k) for p in COND] + [('TDySetBoundaryPressureTypeFunction', i)]


class Watched(tdy.T):
    """a dycore that makes requests it should refuse before the calls of its program"""

    def start(self, r, rate):
        self.r, self.rate, self.bad, self.n, self.first, self.kinds = r, rate, [], 0, None, set()
        self.mode = self.disc = None
        self.opts = self.setup = self.ti_on = False
        self.has = set()
        self.quiet = False
        return self

    def __call__(self, name, *a):
        if self.quiet:
            return super().__call__(name, *a)
        self.quiet = True
        for _ in range(self.r.randint(1, 4) if self.r.uniform() < self.rate else 0):
            self.odd(name)
        self.quiet = False
        rc = super().__call__(name, *a)
        self.follow(name, a)
        return rc

    def use_mesh(self):
        if self.r.uniform() < self.rate:
            self.odd('use_mesh')
        super().use_mesh()

    def follow(self, name, a):
        if name == 'TDySetMode':
            self.mode = int(a[0])
        elif name == 'TDySetDiscretization':
            self.disc = int(a[0])
        elif name == 'TDySetFromOptions':
            self.opts = True
        elif name in ('TDySetup', 'TDyDriverInitializeTDy'):
            self.setup = True
            self.ti_on = self.ti_on or name.startswith('TDyD')
        self.has |= {p for p in SCALAR + TENSOR if p in name}

    def requests(self):
        """(group, name, thunk) of requests that cannot be carried out now"""
        L, r = self.L, self.r
        m, d = self.mode, self.disc
        out = []

        def add(group, name, *a):
            out.append((group, name, lambda: L.rc(name, self.h, *a)))

        def made(group, name, kind, wrap):
            out.append((group, name, lambda: wrap(name, kind)))
        fits = lambda m, d: m == 0 or d == 0
        if m is None:
            for k in range(6):
                add('order', 'TDySetDiscretization', k)
        if m is not None and d is not None and not self.opts:
            for k in range(3):
                if not fits(k, d):
                    add('combination', 'TDySetMode', k)
            add('value', 'TDySetMode', 7)
        if m is not None and not self.opts:
            for k in range(6):
                if not fits(m, k):
                    add('combination', 'TDySetDiscretization', k)
            add('value', 'TDySetDiscretization', 9)
        if d is None or self.opts:
            add('order', 'shim_use_ctor')
        if self.opts:
            for k in range(3):
                if k != m:
                    add('change', 'TDySetMode', k)
            for k in range(6):
                if k != d:
                    add('change', 'TDySetDiscretization', k)
        if not self.opts:
            for nm, a in setters(L):
                add('setter', nm, a)
            for p in SELECT:
                add('setter', 'TDySelect%sFunction' % p, b'c26')
            for nm in ('TDySetup', 'TDyDriverInitializeTDy'):
                add('order', nm)
        for p in SELECT:
            add('name', 'TDySelect%sFunction' % p, b'no such function')
        v = C.c_void_p()
        out.append(('name', 'TDyGetFunction', lambda: L.rc('TDyGetFunction', b'no such function', C.byref(v))))
        for nm, ds in (('TDyMPFAOSetGmatrixMethod', MPFAO), ('TDyMPFAOSetBoundaryConditionType', MPFAO), ('TDyWYSetQuadrature', (4,)), ('TDyBDMSetQuadrature', (3,))):
            if not self.opts or d not in ds:
                for k in (0, 1):
                    add('context', nm, k)
        for nm, ds in (('TDyMPFAOComputeSystem', (0, 2)), ('TDyWYComputeSystem', (4,)), ('TDyBDMComputeSystem', (3,))):
            if not self.setup or d not in ds:
                made('context', nm, None, self.system)
        if not self.setup or d == 3:
            add('state', 'TDyUpdateState', np.full(64, 1e5), 8)
        if not self.setup or d in FE:
            add('state', 'TDyUpdateDiagnostics')
            add('state', 'TDyCreateDiagnosticVector', C.byref(v))
        if not self.setup:
            add('state', 'TDyCreatePrognosticVector', C.byref(v))
            add('state', 'TDyCreateMatrix', C.byref(v))
        if self.opts and not self.setup and m in NEEDS and not set(NEEDS[m]) <= self.has:
            add('materials', 'TDySetup')
        if self.setup:
            made('late', 'TDySetFromOptions', None, self.late)
        if not self.ti_on:
            add('integrator', 'TDyTimeIntegratorRunToTime', 1.0)
            add('integrator', 'TDyTimeIntegratorSetTimeStep', 1.0)
        if self.opts:
            if d in (3, 5) or d == 0 and m == 2:
                made('solver', 'TDySetIFunction', 'TS', self.solver)
            if d in (3, 4, 5):
                made('solver', 'TDySetIJacobian', 'TS', self.solver)
            if d in (1, 2, 3, 4) or m == 1:
                made('solver', 'TDySetSNESFunction', 'SNES', self.solver)
                made('solver', 'TDySetSNESJacobian', 'SNES', self.solver)
                add('solver', 'TDyPreSolveSNESSolver')
        if d is not None and not self.opts:
            for o in BADOPT:
                if not (self.noenum and o[1].startswith('no_such') and o[1][-4:] != '.msh') and not any(k == o[0] or o[0].replace('func', 'value') == k for k, _ in self.db):
                    made('options', 'TDySetFromOptions', o, self.badopt)
        return out

    def system(self, name, _):
        L, A, b = self.L, C.c_void_p(), C.c_void_p()
        com = C.c_void_p(L.so.shim_comm(1))
        L.call('VecCreateMPI', com, 8, -1, C.byref(b))
        L.call('MatCreateAIJ', com, 8, 8, -1, -1, 8, None, 8, None, C.byref(A))
        L.call('MatSetOption', A, 19, 0)
        rc = L.rc(name, self.h, A, b)
        L.destroy('Mat', A)
        L.destroy('Vec', b)
        return rc

    def solver(self, name, kind):
        L, s = self.L, C.c_void_p()
        L.call(kind + 'Create', C.c_void_p(L.so.shim_comm(1)), C.byref(s))
        rc = L.rc(name, s, self.h)
        L.destroy(kind, s)
        return rc

    def badopt(self, name, o):
        db = list(self.db)
        self.L.plain_options(db + [o])
        rc = self.L.rc('TDySetFromOptions', self.h)
        self.L.plain_options(db)
        return rc

    def late(self, name, _):
        """TDySetFromOptions after the set-up, with other options than before"""
        db, r = list(self.db), self.r
        q = [('tdy_pressure_bc_value', '%g' % r.uniform(1e5, 9e5)), ('tdy_temperature_bc_value', '%g' % r.uniform(1, 90)), ('tdy_gravity', '%g' % r.uniform(1, 20)), ('tdy_pressure_bc_func', 'c26'),
             ('tdy_water_density', ('constant', 'exponential', 'batzle_and_wang')[r.randint(3)]), ('tdy_water_viscosity', ('constant', 'batzle_and_wang')[r.randint(2)]),
             ('tdy_mpfao_gmatrix_method', ('MPFAO_GMATRIX_DEFAULT', 'MPFAO_GMATRIX_TPF')[r.randint(2)]), ('tdy_mpfao_boundary_condition_type', ('dirichlet_bc', 'neumann_bc', 'seepage_bc')[r.randint(3)]),
             ('tdy_fvtpf_boundary_condition_type', ('dirichlet_bc', 'neumann_bc', 'seepage_bc')[r.randint(3)]), ('tdy_mode', MODENAMES[r.randint(3)]), ('tdy_discretization', DISCNAMES[r.randint(6)]),
             ('tdy_vangenuchten_param_m', '%g' % r.uniform(.3, .8)), ('tdy_porosity', '%g' % r.uniform(.1, .9)), ('tdy_init_with_random_field', '')]
        q = [x for x in q if r.randint(2)]
        self.L.plain_options([x for x in db if x[0] not in dict(q)] + q)
        rc = self.L.rc(name, self.h)
        self.L.plain_options(db)
        return rc

    @property
    def db(self):
        return self.L.last_options

    def odd(self, before):
        q = self.requests()
        groups = sorted({g for g, _, _ in q})
        g = groups[self.r.randint(len(groups))]
        q = [x for x in q if x[0] == g]
        _, name, f = q[self.r.randint(len(q))]
        self.n += 1
        self.kinds.add(g)
        if f() == 0:
            self.bad.append('%s (%s) was accepted before %s (mode %s, discretization %s, options %s, set up %s)' % (name, g, before, self.mode, self.disc, self.opts, self.setup))
        d = C.c_int(-1)
        if self.disc is not None and self.L.rc('TDyGetDiscretization', self.h, C.byref(d)) == 0 and not any(k == 'tdy_discretization' for k, _ in self.db) and d.value != self.disc:
            self.bad.append('after %s (%s) was refused the discretization is %d, not %d' % (name, g, d.value, self.disc))


def run(L, c):
    plain_new, plain_options = L.new, L.options
    L.plain_options, L.last_options = plain_options, []
    made = []

    def options(o):
        L.last_options = list(o)
        plain_options(o)

    def new(comm=1):
        t = plain_new(comm)
        w = Watched(L, t.h).start(np.random.RandomState(c['seed'] % 2 ** 32), c['rate'])
        w.noenum = c.get('noenum', False)
        made.append(w)
        return w

    def live(odd):
        L.options = options
        if odd:
            L.new = new
        try:
            z = C22.make(L, c['c'], None)
            for _ in z.life():
                pass
            if odd:
                made[0].quiet = True
            z.end()
            return z
        finally:
            L.new, L.options = plain_new, plain_options
    L.call('TDyRegisterFunction', b'c26', L.spfun(lambda x: 0 * x[:, 0], 3))
    plain = live(False) if c['before'] else None
    z = live(True)
    plain = plain or live(False)
    if z.empty or plain.empty:
        return {'_na': 'a process without cells'}
    w = made[0]
    same = [a == b or not isinstance(a, str) and not isinstance(b, str) and np.array_equal(np.array(a, dtype=float), np.array(b, dtype=float), equal_nan=True) for a, b in zip(z.ev, plain.ev)]
    o = {'bad': w.bad, 'refused': w.n, 'groups': sorted(w.kinds), 'n': len(z.ev), 'plain': len(plain.ev), 'first': same.index(False) if False in same else None}
    if o['first'] is not None:
        a, b = z.ev[o['first']], plain.ev[o['first']]
        o['diff'] = [a, b] if isinstance(a, str) or isinstance(b, str) or len(a) != len(b) else [[j, x, y] for j, (x, y) in enumerate(zip(a, b)) if not (x == y or x != x and y != y)][:4]
    return o


ENDS = {                            # name -> where it must be refused ('' - anywhere or nowhere, but not with a crash)
    'no permeability': '', 'WY driver': 'driver', 'TH with SNES': 'driver', 'SALINITY with TS': 'driver', 'unknown integrator': 'driver', 'flat mesh': 'setup', 'two initial states': 'options',
    'output of the mesh': 'setup', 'regression without a name': 'setup', 'combination by options': 'options', 'no initial file': '', 'no mesh file': 'options', 'no PFLOTRAN mesh file': 'options',
    'PFLOTRAN mesh': 'options', 'no such boundary function': 'options', 'early driver': 'driver', 'early setup': 'setup', 'no such mesh format': 'options', 'short initial file': '', 'driver twice': '',
    'cut mesh file': '', 'mixed cells': 'setup', 'prisms': 'setup', 'tetrahedra': 'setup'}
SOLE = ('no initial file', 'no mesh file', 'no PFLOTRAN mesh file', 'no such mesh format', 'short initial file', 'two initial states', 'cut mesh file', 'mixed cells')   # files: one process only
DRIVEN = ('WY driver', 'TH with SNES', 'SALINITY with TS', 'unknown integrator', 'early driver', 'no initial file', 'short initial file', 'driver twice')


def mixed(r):
    """a mesh of bricks and prisms, in a row"""
    k = int(r.randint(2, 5))
    kinds = [0, 1] + [int(r.randint(2)) for _ in range(k - 2)]
    kinds = [kinds[i] for i in r.permutation(k)]
    v = [[i, y, z] for i in range(k + 1) for z in (0, 1) for y in (0, 1)]
    els = []
    for i, q in enumerate(kinds):
        a, b = [4 * i + j for j in (1, 2, 4, 3)], [4 * i + j for j in (5, 6, 8, 7)]
        if q == 0:
            els.append((5, a + b))
        else:                                          # triangles below and above
            els += [(6, [a[0], b[0], b[1], a[3], b[3], b[2]]), (6, [a[0], b[1], a[1], a[3], b[2], a[2]])]
    return '\n'.join(['$MeshFormat', '2.2 0 8', '$EndMeshFormat', '$Nodes', str(len(v))] + ['%d %g %g %g' % (i + 1, *x) for i, x in enumerate(v)] + ['$EndNodes', '$Elements', str(len(els))] +
                     ['%d %d 2 1 1 %s' % (i + 1, t, ' '.join(map(str, q))) for i, (t, q) in enumerate(els)] + ['$EndElements', ''])


def tetrahedra(n):
    """bricks, each cut into six tetrahedra around its diagonal"""
    cells = []
    for k in range(n[2]):
        for j in range(n[1]):
            for i in range(n[0]):
                for p in itertools.permutations(range(3)):
                    q, path = [i, j, k], []
                    for d in (None,) + p:
                        if d is not None:
                            q[d] += 1
                        path.append(ME.vid(n, *q))
                    odd = p in ((0, 2, 1), (2, 1, 0), (1, 0, 2))
                    cells.append(path if odd else [path[0], path[2], path[1], path[3]])
    return cells, np.array([[i, j, k] for k in range(n[2] + 1) for j in range(n[1] + 1) for i in range(n[0] + 1)], dtype=float)


def ending(L, e):
    """walk a dycore into a request that cannot be met, then destroy it"""
    k, r = e['k'], np.random.RandomState(e['seed'] % 2 ** 32)
    mode, disc = e['mode'], e['disc']
    mode, disc = {'WY driver': (0, 4), 'TH with SNES': (1, 0), 'SALINITY with TS': (2, 0)}.get(k, (mode, disc))
    if k in ('output of the mesh', 'PFLOTRAN mesh'):
        mode, disc = (0, disc or 1)
        if k == 'PFLOTRAN mesh' and disc == 5:
            disc = 4
    if k == 'flat mesh':
        mode, disc = (mode, 0) if mode else (0, (0, 1, 2)[disc % 3])
    if k in ('regression without a name', 'unknown integrator', 'no initial file', 'short initial file', 'driver twice', 'no permeability', 'early driver') and disc in (1, 3, 4):
        disc = 0 if k != 'no permeability' else disc
    o = {'TH with SNES': [('tdy_time_integration_method', 'SNES')], 'SALINITY with TS': [('tdy_time_integration_method', 'TS')], 'unknown integrator': [('tdy_time_integration_method', 'Euler')],
         'two initial states': [('tdy_init_file', 'a.bin'), ('tdy_init_with_random_field', '')], 'output of the mesh': [('tdy_output_mesh', '')], 'regression without a name': [('tdy_regression_test', '')],
         'combination by options': [('tdy_mode', 'TH' if e['mode'] % 2 else 'SALINITY'), ('tdy_discretization', DISCNAMES[1 + e['disc'] % 5])], 'no initial file': [('tdy_init_file', 'none such.bin')],
         'no mesh file': [('tdy_read_mesh', 'none such.msh')], 'no such mesh format': [('tdy_read_mesh', 'odd.xyz')], 'no PFLOTRAN mesh file': [('tdy_read_pflotran_mesh', 'none such.h5')],
         'PFLOTRAN mesh': [('tdy_read_pflotran_mesh', 'none such.h5')], 'no such boundary function': [('tdy_%s_bc_func' % ('pressure', 'velocity', 'temperature')[r.randint(3)], 'no such function')],
         'short initial file': [('tdy_init_file', 'short.bin')], 'cut mesh file': [('tdy_read_mesh', 'cut.msh')], 'mixed cells': [('tdy_read_mesh', 'mixed.msh')]}.get(k, [])
    if k == 'no PFLOTRAN mesh file':
        mode, disc = 0, 5
    if k == 'short initial file':
        S.write_vec('short.bin', np.ones(3))
    if k == 'no such mesh format':
        open('odd.xyz', 'w').write('nothing of use')
    if k == 'mixed cells':
        open('mixed.msh', 'w').write(mixed(r))
    if k == 'prisms':                                  # faces of two kinds
        mode, disc = 0, 3 + disc % 2
    if k == 'tetrahedra' and disc in FE:
        disc = 5
    if k == 'cut mesh file':
        open('cut.msh', 'w').write('$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n')
    if k == 'flat mesh':
        L.mesh_box([2, 3])
    elif k == 'prisms':
        m = {'kind': 'wedge', 'n': e['n'], 'seed': e['seed'], 'size': 1.0}
        L.mesh_cells([q[0] for q in ME.cells_of(m)], ME.coords(m))
    elif k == 'tetrahedra':
        L.mesh_cells(*tetrahedra(e['n']))
    else:
        L.mesh_box(e['n'])
    L.options([])
    t = L.new()
    at = None

    def go(stage, f):
        nonlocal at
        if at is None and f() != 0:
            at = stage
    go('create', lambda: t.rc('TDySetMode', mode))
    go('create', lambda: t.rc('TDySetDiscretization', disc))
    t.use_mesh()
    L.options(o)
    if k not in ('early driver', 'early setup'):
        go('options', lambda: t.rc('TDySetFromOptions'))
    if at is None:
        if k not in ('early driver', 'early setup'):
            t('TDySetConstantPorosity', .3)
            if k != 'no permeability':
                t('TDySetConstantIsotropicPermeability', 1e-10)
            t('TDySetConstantResidualSaturation', .1)
            if mode == 1:
                t('TDySetConstantIsotropicThermalConductivity', 1.)
                t('TDySetConstantSoilDensity', 2000.)
                t('TDySetConstantSoilSpecificHeat', 800.)
            if mode == 2:
                t('TDySetConstantIsotropicSalineDiffusivity', 1e-6)
                t('TDySetConstantSalineMolecularWeight', .05)
        if k in DRIVEN:
            go('driver', lambda: t.rc('TDyDriverInitializeTDy'))
            if k == 'driver twice':
                go('again', lambda: t.rc('TDySetFromOptions'))
        else:
            go('setup', lambda: t.rc('TDySetup'))
    L.options([])
    if e['poke'] and at is not None:                   # what can still be asked of it must not crash
        q = C.c_void_p()
        for nm, a in (('TDyUpdateDiagnostics', ()), ('TDyCreateDiagnosticVector', (C.byref(q),)), ('TDyCreatePrognosticVector', (C.byref(q),)), ('TDyTimeIntegratorSetTimeStep', (1.0,)),
                      ('TDySetMode', (mode,)), ('TDyMPFAOSetGmatrixMethod', (0,))):
            if r.randint(2) and not (k in DRIVEN and at == 'driver'):
                t.rc(nm, *a)
    t.destroy()
    return [k, at]


MODENAMES = ['RICHARDS', 'TH', 'SALINITY']
DISCNAMES = ['MPFA_O', 'MPFA_O_DAE', 'MPFA_O_TRANSIENTVAR', 'BDM', 'WY', 'FV_TPF']


def run_ends(L, c):
    def live():
        z = C22.make(L, c['c'], None)
        for _ in z.life():
            pass
        z.end()
        return z
    a = live()
    ends = [ending(L, e) for e in c['ends']]
    b = live()
    if a.empty or b.empty:
        return {'_na': 'a process without cells'}
    same = [x == y or not isinstance(x, str) and not isinstance(y, str) and np.array_equal(np.array(x, dtype=float), np.array(y, dtype=float), equal_nan=True) for x, y in zip(a.ev, b.ev)]
    return {'ends': ends, 'n': len(b.ev), 'plain': len(a.ev), 'first': same.index(False) if False in same else None}


@st.composite
def ends_case(draw, sole=True):
    k = st.sampled_from([e for e in sorted(ENDS) if sole or e not in SOLE])
    mode = st.integers(0, 2)
    ends = []
    for _ in range(draw(st.integers(1, 3))):
        m = draw(mode)
        ends.append({'k': draw(k), 'seed': draw(G.seeds), 'mode': m, 'disc': 0 if m else draw(st.integers(0, 5)), 'n': draw(st.lists(st.integers(2, 3), min_size=3, max_size=3)), 'poke': draw(st.booleans())})
    return {'c': draw(C22.conf()), 'ends': ends}


def ends_oracle(c, o):
    bad = []
    for q in o['ranks'] if 'ranks' in o else [o]:
        for k, at in q['ends']:
            if ENDS[k] and at != ENDS[k]:
                bad.append('%s: refused at %s instead of %s' % (k, at, ENDS[k]))
        if q['n'] != q['plain']:
            bad.append('%d evaluations of another dycore afterwards, %d before' % (q['n'], q['plain']))
        if q['first'] is not None:
            bad.append('evaluation %d of another dycore differs afterwards' % q['first'])
    return bad[:6]


def ends_nt(c, o):
    return any(at for _, at in (o['ranks'] if 'ranks' in o else [o])[0]['ends'])


def ends_class(c, o):
    return sorted({'end: %s (%s)' % (k, at) for k, at in (o['ranks'] if 'ranks' in o else [o])[0]['ends']})


@st.composite
def case(draw, noenum=False):
    return {'noenum': noenum, 'c': draw(C22.conf()), 'seed': draw(G.seeds), 'rate': draw(st.sampled_from([.1, .3, .6])), 'before': draw(st.booleans())}


def oracle(c, o):
    bad = []
    for k, q in enumerate(o['ranks'] if 'ranks' in o else [o]):
        bad += q['bad']
        if q['n'] != q['plain']:
            bad.append('%d evaluations, %d without the refused requests' % (q['n'], q['plain']))
        if q['first'] is not None:
            bad.append('evaluation %d differs after refused requests (entry, here, without them): %s' % (q['first'], q['diff']))
    return bad[:6]


def nontrivial(c, o):
    q = (o['ranks'] if 'ranks' in o else [o])[0]
    return q['refused'] >= 3 and q['n'] > 0


def classify(c, o):
    q = (o['ranks'] if 'ranks' in o else [o])[0]
    return [c['c']['what']] + ['refused: ' + g for g in q['groups']] + ['%s requests' % ('0-2' if q['refused'] < 3 else '3-9' if q['refused'] < 10 else '10+')]


PARTS = [driver.Part('requests', case, 'run', oracle, (240, 8000), nontrivial=nontrivial, classify=classify),
         driver.Part('requests_asan', lambda: case(noenum=True), 'run', oracle, (50, 1500), nontrivial=nontrivial, classify=classify, variant='asan'),
         driver.Part('requests2', case, 'run', oracle, (40, 1200), np=2, nontrivial=nontrivial, classify=classify),
         driver.Part('ends', ends_case, 'run_ends', ends_oracle, (120, 4000), nontrivial=ends_nt, classify=ends_class),
         driver.Part('ends_asan', ends_case, 'run_ends', ends_oracle, (40, 1200), nontrivial=ends_nt, classify=ends_class, variant='asan'),
         driver.Part('ends2', lambda: ends_case(sole=False), 'run_ends', ends_oracle, (30, 1000), np=2, nontrivial=ends_nt, classify=ends_class)]
