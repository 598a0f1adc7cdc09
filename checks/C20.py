"""The Fortran interface: the same program in Fortran and in C gives the same simulation.
Fortran calls go through /repo's Fortran module, compiled with harness/fdrv.F90."""
import ctypes as C, os
import numpy as np
import hypothesis.strategies as st
import gens as G, meshes as ME, sim as S, cases as CA
import driver
RULE = 'two different Fortran functions were in use, or the two programs were compared after a solve or a state update'
ASSUMPTIONS = ['Fortran names are literals, blanks at their end do not count (as in every Fortran comparison)',
               'both programs use the same functions: C calls the Fortran code of a function through a callback']
NF, NI = 40, 6
CALLS = ['TDyCreate', 'TDySetMode', 'TDySetDiscretization', 'TDySetFromOptions', 'TDySetup', 'TDyDriverInitializeTDy', 'TDyTimeIntegratorRunToTime',
         'TDyTimeIntegratorSetTimeStep', 'TDyTimeIntegratorOutputRegression', 'TDyGetDM', 'TDyUpdateDiagnostics', 'TDyCreateDiagnosticVector',
         'TDyCreatePrognosticVector', 'TDyCreateMatrix', 'TDyGetLiquidSaturation', 'TDyGetLiquidMass', 'TDyGetLiquidPressure', 'TDySetWaterDensityType',
         'TDyMPFAOSetGmatrixMethod', 'TDyMPFAOSetBoundaryConditionType', 'TDySetIFunction', 'TDySetIJacobian', 'TDySetSNESFunction', 'TDySetSNESJacobian',
         'TDyCreateVectors', 'TDyCreateJacobian', 'TDySetDtimeForSNESSolver', 'TDySetInitialCondition', 'TDyGetInitialCondition', 'TDyPreSolveSNESSolver',
         'TDyPostSolve', 'TDyUpdateState', 'TDyGlobalToNatural', 'TDyOutputRegression', 'TDyDestroy']
CREATES = {'TDyGetDM', 'TDyCreateDiagnosticVector', 'TDyCreatePrognosticVector', 'TDyCreateMatrix'}
FIRST = {'TDySetIFunction', 'TDySetIJacobian', 'TDySetSNESFunction', 'TDySetSNESJacobian'}      # (solver, dycore)
SLOTS = ['Porosity', 'Forcing', 'EnergyForcing', 'BoundaryPressure', 'BoundaryVelocity', 'ResidualSaturation', 'BoundaryPressureType']
COMPUTE = {'Porosity': ('matprop', 'MaterialPropComputePorosity'), 'ResidualSaturation': ('matprop', 'MaterialPropComputeResidualSaturation'),
           'Forcing': ('conditions', 'ConditionsComputeForcing'), 'EnergyForcing': ('conditions', 'ConditionsComputeEnergyForcing'),
           'BoundaryPressure': ('conditions', 'ConditionsComputeBoundaryPressure'), 'BoundaryVelocity': ('conditions', 'ConditionsComputeBoundaryVelocity'),
           'BoundaryPressureType': ('conditions', 'ConditionsAssignBoundaryPressureType')}


def hv(x):
    return C.c_int64((x.value if isinstance(x, C.c_void_p) else x) or 0)


class Fortran:
    """one dycore driven through the Fortran module"""
    lang = 'f'

    def __init__(self, L):
        self.L, self.h = L, C.c_int64(0)
        self.call('TDyCreate')

    def _rc(self, ierr, name):
        if ierr.value:
            import tdy
            buf = C.create_string_buffer(4096)
            self.L.so.shim_last_error(buf, 4096)
            raise tdy.TDyError(name, ierr.value, buf.value.decode(errors='replace'))

    def call(self, name, *v, d=None, i=0):
        vv = (C.c_int64 * 2)(*[hv(x) for x in v])
        dd = np.array([0.0] if d is None else d, dtype=float)
        ii, e = C.c_int(i), C.c_int(0)
        self.L.so.shim_clear_error()
        self.L.so.tdyhf_call(C.byref(self.h), CALLS.index(name), vv, dd.ctypes.data_as(C.POINTER(C.c_double)), C.byref(ii), C.byref(e))
        self._rc(e, name)
        return C.c_void_p(vv[0]) if name in CREATES else None

    def set(self, slot, k):
        e = C.c_int(0)
        self.L.so.tdyhf_set(C.byref(self.h), SLOTS.index(slot), k, C.byref(e))
        self._rc(e, 'TDySet%sFunction' % slot)

    def select(self, slot, name):
        e = C.c_int(0)
        b = name.encode()
        self.L.so.tdyhf_select(C.byref(self.h), SLOTS.index(slot), b, len(b), C.byref(e))
        self._rc(e, 'TDySelect%sFunction' % slot)

    def const(self, what, a):
        e = C.c_int(0)
        self.L.so.tdyhf_const(C.byref(self.h), {'Porosity': 0, 'TensorPermeability': 1, 'ResidualSaturation': 2}[what], (C.c_double * 9)(*a), C.byref(e))
        self._rc(e, 'TDySetConstant' + what)

    def ctor(self):
        dm, e = C.c_void_p(), C.c_int(0)
        self.L.call('shim_make_dm', 1, C.byref(dm))
        self.L.so.tdyhf_ctor(C.byref(self.h), hv(dm), C.byref(e))
        self._rc(e, 'TDySetDMConstructor')

    def T(self):
        import tdy
        return tdy.T(self.L, C.c_void_p(self.h.value))


class Cee:
    lang = 'c'

    def __init__(self, L):
        self.L = L
        self.t = L.new()

    def call(self, name, *v, d=None, i=0):
        t = self.t
        if name == 'TDyDestroy':
            return t.destroy()
        if name in CREATES:
            o = C.c_void_p()
            t(name, C.byref(o))
            return o
        if name in FIRST:
            return self.L.call(name, v[0], t.h) and None
        a = list(v)
        if name == 'TDyUpdateState':
            a = [np.array(d, dtype=float), i]
        elif d is not None:
            a.append(float(d[0]))
        elif name in ('TDySetMode', 'TDySetDiscretization', 'TDySetWaterDensityType', 'TDyMPFAOSetGmatrixMethod', 'TDyMPFAOSetBoundaryConditionType'):
            a.append(i)
        t(name, *a)

    def fun(self, slot, k):
        L = self.L
        if slot == 'BoundaryPressureType':
            return L.spifun(lambda x: values(L, k, x), L.fdim)
        return L.spfun(lambda x: values(L, k, x), L.fdim)

    def set(self, slot, k):
        self.t('TDySet%sFunction' % slot, self.fun(slot, k))

    def const(self, what, a):
        self.t('TDySetConstant' + what, np.array(a, dtype=float) if what.startswith('Tensor') else float(a[0]))

    def ctor(self):
        self.t.use_mesh()

    def T(self):
        return self.t


def values(L, k, x):
    """the Fortran code of function k, called directly"""
    x = np.ascontiguousarray(x, dtype=float)
    n = len(x)
    out = (np.zeros(n, dtype=np.int32) if k >= NF else np.zeros(n))
    if k >= NF:
        L.so.tdyhf_ieval(k, n, x.ctypes.data_as(C.c_void_p), out.ctypes.data_as(C.c_void_p))
    else:
        L.so.tdyhf_eval(k, n, x.ctypes.data_as(C.c_void_p), out.ctypes.data_as(C.c_void_p))
    return out


def params(seed):
    """coefficients of all functions"""
    r = np.random.RandomState(seed % 2 ** 32)
    return np.stack([r.uniform(1, 2, NF + NI), *r.uniform(-1, 1, (3, NF + NI)), r.uniform(-1, 1, NF + NI)], 1)


def prepare(L, dim, A):
    L.fdim = dim
    L.so.tdyhf_prepare(dim)
    for k, a in enumerate(A):
        L.so.tdyhf_par(k, (C.c_double * 5)(*a))


def stat(L):
    a = (C.c_int * (3 + NF + NI))()
    L.so.tdyhf_stat(a)
    return list(a)


def formula(a, x, integer):
    y = np.zeros((len(x), 3))
    y[:, :x.shape[1]] = x
    if integer:
        return np.floor(a[0] + y @ a[1:4]) % 3
    return a[0] + y @ a[1:4] + a[4] * np.sin(3 * y[:, 0] + 5 * y[:, 1] - 2 * y[:, 2])


# ------------------------------------------------------------------ which function is called
NAMES = ['p', 'pp', 'porosity', 'por', 'bc', 'a_name_of_exactly_32_characters_', 'forcing_1', 'forcing_10', 'q']


@st.composite
def functions(draw):
    few = draw(st.booleans())
    fk = st.integers(0, 3 if few else NF - 1)
    who = st.integers(0, 1)
    op = st.one_of(st.tuples(st.just('set'), who, st.sampled_from(SLOTS[:6]), fk),
                   st.tuples(st.just('set'), who, st.sampled_from(SLOTS[:6]), fk),
                   st.tuples(st.just('set'), who, st.just('BoundaryPressureType'), st.integers(0, NI - 1)),
                   st.tuples(st.just('register'), st.just(0), st.sampled_from(NAMES), fk),
                   st.tuples(st.just('select'), who, st.sampled_from(SLOTS[:5]), st.sampled_from(NAMES)),
                   st.tuples(st.just('cset'), who, st.sampled_from(SLOTS[:6]), fk),
                   st.tuples(st.just('new'), who, st.just(''), st.just(0)))
    ops = [list(x) for x in draw(st.lists(op, min_size=3, max_size=50))]
    if draw(st.integers(0, 2)) == 0:        # many different functions
        ops += [['set', draw(who), draw(st.sampled_from(SLOTS[:6])), k] for k in draw(st.permutations(range(NF)))]
    return {'dim': draw(st.sampled_from([2, 3])), 'seed': draw(G.seeds), 'ops': ops, 'npts': draw(st.integers(1, 7))}


def dycore(L, dim):
    L.mesh_box([1, 2, 2][:dim])
    f = Fortran(L)
    f.call('TDySetMode', i=0)
    f.call('TDySetDiscretization', i=4 if dim == 2 else 0)
    f.ctor()
    f.call('TDySetFromOptions')
    return f


def run_functions(L, c):
    A = params(c['seed'])
    prepare(L, c['dim'], A)
    L.options([])
    D = [dycore(L, c['dim']), None]
    D[1] = dycore(L, c['dim'])
    x = np.random.RandomState(c['seed'] % 2 ** 31).uniform(-1, 1, (c['npts'], c['dim']))
    log = []
    names = set()
    cee = Cee.__new__(Cee)
    cee.L = L
    for op, who, a, k in c['ops']:
        d = D[who]
        if op == 'set':
            d.set(a, k)
        elif op == 'cset':
            d.T()('TDySet%sFunction' % a, cee.fun(a, k))
        elif op == 'register':
            e = C.c_int(0)
            b = a.encode()
            L.so.tdyhf_register(b, len(b), k, C.byref(e))
            names.add(a)
        elif op == 'select':
            if a and k in names:
                d.select(a, k)
        else:
            d.call('TDyDestroy')
            D[who] = dycore(L, c['dim'])
    out = []
    for d in D:
        t = d.T()
        o = {}
        for s in SLOTS:
            tab, fn = COMPUTE[s]
            y = np.full(c['npts'], -77, dtype=np.int32 if s.endswith('Type') else float)
            if t_has(c, D.index(d), s):
                L.call(fn, t.obj(tab), c['npts'], np.ascontiguousarray(x).reshape(-1), y)
                o[s] = y.tolist()
        out.append(o)
        d.call('TDyDestroy')
    return {'x': x.tolist(), 'v': out, 'stat': stat(L)}


def model(c):
    """slot -> function number, for both dycores"""
    slot, reg = [{}, {}], {}
    for op, who, a, k in c['ops']:
        if op == 'set':
            slot[who][a] = k + (NF if a.endswith('Type') else 0)
        elif op == 'cset':
            slot[who][a] = k
        elif op == 'register':
            reg[a] = k
        elif op == 'select':
            if k in reg:
                slot[who][a] = reg[k]
        else:
            slot[who] = {}
    return slot


def t_has(c, who, s):
    return s in model(c)[who]


def oracle_functions(c, o):
    A = params(c['seed'])
    x = np.array(o['x'])
    bad = []
    for who, sl in enumerate(model(c)):
        for s, k in sl.items():
            want = formula(A[k], x, k >= NF)
            got = np.array(o['v'][who].get(s, []), dtype=float)
            if got.shape != want.shape or not (np.abs(got - want) <= 1e-12 * (1 + abs(want))).all():
                bad.append('dycore %d: %s is %s, function %d gives %s' % (who, s, got.tolist()[:3], k, want.tolist()[:3]))
    if o['stat'][0]:
        bad.append('%d calls of a Fortran function whose x holds fewer than dim*n numbers' % o['stat'][0])
    if o['stat'][1]:
        bad.append('%d calls of a Fortran function whose f holds fewer than n numbers' % o['stat'][1])
    return bad[:5]


def nt_functions(c, o):
    return len({k for m in model(c) for k in m.values()}) > 1


def cl_functions(c, o):
    n = len({x[3] for x in c['ops'] if x[0] in ('set', 'register')})
    return ['%d functions' % (n // 8 * 8)] + ['op ' + k for k in {x[0] for x in c['ops']}]


# ------------------------------------------------------------------ whole programs
REG = 'c20'


@st.composite
def program(draw):
    kind = draw(st.sampled_from(['snes', 'snes', 'ts', 'tpf', 'th', 'salt', 'driver', 'driver', 'wy']))
    m = draw(ME.mesh(kinds=('tensor', 'affine', 'columns'), nmax=3, cells=12))
    c = {'mesh': m, 'kind': kind, 'seed': draw(G.seeds), 'dt': draw(G.logf(1e-1, 1e4)), 'density': draw(st.sampled_from([0, 1])),
         'gmat': draw(st.sampled_from([None, 0, 1])), 'bct': draw(st.sampled_from([None, 0, 1, 2])), 'per': draw(st.sampled_from([None, 1, 3])),
         'steps': draw(st.integers(1, 3)), 'targets': draw(st.lists(G.logf(10, 3e3), min_size=1, max_size=3))}
    c['funs'] = {s: draw(st.integers(0, NF - 1)) for s in draw(st.lists(st.sampled_from(['Porosity', 'Forcing', 'EnergyForcing', 'BoundaryPressure', 'ResidualSaturation']), unique=True))}
    c['type'] = draw(st.sampled_from([None, 0, 1])) if kind == 'tpf' else None
    c['consts'] = draw(st.lists(st.sampled_from(['Porosity', 'ResidualSaturation', 'TensorPermeability']), unique=True))
    return c


def prog_params(c):
    """physical coefficients: the function of a slot is scaled for it"""
    r = np.random.RandomState(c['seed'] % 2 ** 32)
    A = params(c['seed']) * 0
    size = c['mesh']['size']
    base = {'Porosity': (.3, .05), 'ResidualSaturation': (.1, .02), 'Forcing': (1e-4, 1e-4), 'EnergyForcing': (1., 1.), 'BoundaryPressure': (1.05e5, 3e3)}
    for s, k in c['funs'].items():
        b, w = base[s]
        A[k] = [b, *(r.uniform(-w, w, 3) / size), r.uniform(-w, w)]
    for k in range(NF, NF + NI):
        A[k] = [r.uniform(0, 3), *(r.uniform(-2, 2, 3) / size), 0]
    return A


MODE = {'th': 1, 'salt': 2}
DISC = {'tpf': 5, 'wy': 4}


def drive(L, c, B):
    """the program, in the language of B"""
    kind = c['kind']
    r = np.random.RandomState(c['seed'] % 2 ** 31)
    L.mesh_box(c['mesh']['n'], coords=ME.coords(c['mesh']))
    opts = [('tdy_regression_test', None), ('tdy_regression_test_filename', REG), ('tdy_gravity', '0'), ('snes_max_it', '15'), ('snes_rtol', '1e-10')]
    if c['per']:
        opts.append(('tdy_regression_test_num_cells_per_process', str(c['per'])))
    if kind == 'th':
        opts += [('tdy_time_integration_method', 'TS')]
    if kind == 'driver':
        opts += [('tdy_dt_init', repr(c['dt'])), ('tdy_dt_max', '500'), ('tdy_dt_growth_factor', '2')]
    L.options(opts)
    if L.rank == 0 and os.path.exists(REG + '.regression'):
        os.remove(REG + '.regression')
    p = B(L)
    p.call('TDySetMode', i=MODE.get(kind, 0))
    p.call('TDySetDiscretization', i=DISC.get(kind, 0))
    p.ctor()
    p.call('TDySetFromOptions')
    o, log = {}, []
    o['log'] = log
    K = r.normal(size=(3, 3))
    K = (np.eye(3) + .2 * (K + K.T)) * 1e-12 if kind not in ('tpf',) else np.diag(r.uniform(.5, 2, 3)) * 1e-12
    drv = kind in ('driver', 'th', 'salt')      # sets what was not given
    if 'TensorPermeability' in c['consts'] or not drv:
        p.const('TensorPermeability', K.reshape(-1).tolist())
    if 'Porosity' in c['consts'] or not drv:
        p.const('Porosity', [float(r.uniform(.1, .5))] * 9)
    if 'ResidualSaturation' in c['consts'] or not drv:
        p.const('ResidualSaturation', [float(r.uniform(.05, .2))] * 9)
    for s, k in sorted(c['funs'].items()):
        p.set(s, k)
    if c['type'] is not None:
        if B is Fortran:
            p.set('BoundaryPressureType', c['type'])
        else:
            p.set('BoundaryPressureType', c['type'] + NF)
    p.call('TDySetWaterDensityType', i=c['density'])
    if kind not in ('wy', 'tpf'):
        if c['gmat'] is not None:
            p.call('TDyMPFAOSetGmatrixMethod', i=c['gmat'])
        if c['bct'] is not None:
            p.call('TDyMPFAOSetBoundaryConditionType', i=c['bct'])
    if kind in ('driver', 'th', 'salt'):
        p.call('TDyDriverInitializeTDy')
    else:
        p.call('TDySetup')
    dm = p.call('TDyGetDM')
    q = C.c_void_p()
    p.T()('TDyGetDM', C.byref(q))
    o['dm'] = dm.value == q.value
    if kind not in ('driver', 'th', 'salt'):
        p.call('TDyCreateVectors')
        p.call('TDyCreateJacobian')
    U, W, N = p.call('TDyCreatePrognosticVector'), p.call('TDyCreatePrognosticVector'), p.call('TDyCreatePrognosticVector')
    d = p.call('TDyCreateDiagnosticVector') if kind != 'wy' else None
    M = p.call('TDyCreateMatrix')
    mi = (C.c_int * 4)()
    L.call('shim_mat_info', M, mi)
    o['mat'] = list(mi)
    n = L.vec_get(U).size
    st_, en = L.vec_range(U)
    nd = 2 if kind in MODE else 1
    tot = C.c_int()
    L.call('VecGetSize', U, C.byref(tot))

    def state(q):
        P = np.random.RandomState((c['seed'] + 13 * q) % 2 ** 32).uniform(9e4, 1.1e5, tot.value)
        if nd == 2:
            P[1::2] = np.random.RandomState((c['seed'] + 17 * q) % 2 ** 32).uniform(*((290, 310) if kind == 'th' else (0, 2)), tot.value // 2)
        return P[st_:en]

    def diagnostics():
        if kind == 'wy':
            return
        p.call('TDyUpdateDiagnostics')
        for f in ('TDyGetLiquidSaturation', 'TDyGetLiquidMass'):
            p.call(f, d)
            log.append(L.vec_get(d).tolist())

    L.vec_set(U, state(0))
    p.call('TDySetInitialCondition', U)
    p.call('TDyGetInitialCondition', W)
    log.append(L.vec_get(W).tolist())
    if kind in ('snes', 'tpf', 'salt'):
        s = C.c_void_p()
        L.call('SNESCreate', C.c_void_p(L.so.shim_comm(C.c_int(1))), C.byref(s))
        p.call('TDySetSNESFunction', s)
        p.call('TDySetSNESJacobian', s)
        p.call('TDySetDtimeForSNESSolver', d=[c['dt']])
        L.call('SNESSetFromOptions', s)
        p.call('TDyPreSolveSNESSolver')
        R = L.vec_dup(U)
        for q in range(2):
            L.vec_set(U, state(q + 1))
            L.call('SNESComputeFunction', s, U, R)
            log.append(L.vec_get(R).tolist())
        J, Jp = C.c_void_p(), C.c_void_p()
        L.call('SNESGetJacobian', s, C.byref(J), C.byref(Jp), None, None)
        L.call('SNESComputeJacobian', s, U, J, Jp)
        log.append(L.mat_dense(Jp).reshape(-1).tolist())
        p.call('TDyGetInitialCondition', U)
        for q in range(c['steps']):
            p.call('TDyPreSolveSNESSolver')
            L.call('SNESSolve', s, None, U)
            why = C.c_int()
            L.call('SNESGetConvergedReason', s, C.byref(why))
            log.append([why.value])
            p.call('TDyPostSolve', U)
            log.append(L.vec_get(U).tolist())
            diagnostics()
        L.destroy('SNES', s)
        L.destroy('Vec', R)
    elif kind in ('ts', 'th', 'wy'):
        h = C.c_void_p()
        L.call('TSCreate', C.c_void_p(L.so.shim_comm(C.c_int(1))), C.byref(h))
        L.call('TSSetDM', h, dm)
        p.call('TDySetIFunction', h)
        if kind != 'wy':
            p.call('TDySetIJacobian', h)
        R, V = L.vec_dup(U), L.vec_dup(U)
        for q in range(2):
            L.vec_set(U, state(q + 1))
            L.vec_set(V, (state(q + 2) - state(q + 1)) * 1e-3)
            L.call('TSComputeIFunction', h, C.c_double(0), U, V, R, 0)
            log.append(L.vec_get(R).tolist())
        diagnostics()
        for x in (R, V):
            L.destroy('Vec', x)
        L.destroy('TS', h)
    else:
        t = 0.0
        for q, dt in enumerate(c['targets']):
            p.call('TDyTimeIntegratorSetTimeStep', d=[c['dt'] * (1 + .1 * q)])
            t += dt
            p.call('TDyTimeIntegratorRunToTime', d=[t])
            p.call('TDyGetLiquidPressure', d)
            log.append(L.vec_get(d).tolist())
            diagnostics()
        p.call('TDyTimeIntegratorOutputRegression')
        L.call('PetscBarrier', None)
        if L.rank == 0:
            o['regti'] = open(REG + '.regression').read()
            L.call('PetscBarrier', None)
            os.remove(REG + '.regression')
        else:
            L.call('PetscBarrier', None)
    if kind != 'wy':
        # the state of all local cells
        w = C.c_void_p()
        L.vec_set(U, state(5))
        p.T()('TDyCreateLocalVector', C.byref(w))
        p.T()('TDyGlobalToLocal', U, w)
        a = np.ascontiguousarray(L.vec_get(w))
        p.call('TDyUpdateState', d=a, i=a.size // nd)
        L.destroy('Vec', w)
        diagnostics()
    p.call('TDyGlobalToNatural', U, N)
    log.append(L.vec_get(N).tolist())
    p.call('TDyOutputRegression', U)
    L.call('PetscBarrier', None)
    if L.rank == 0:
        o['reg'] = open(REG + '.regression').read()
    for x in (U, W, N):
        L.destroy('Vec', x)
    if d:
        L.destroy('Vec', d)
    L.destroy('Mat', M)
    p.call('TDyDestroy')
    o['h'] = p.h.value if B is Fortran else 0
    return o


def run_program(L, c):
    import tdy
    prepare(L, 3, prog_params(c))
    out = []
    for B in (Cee, Fortran):
        try:
            out.append(drive(L, c, B))
        except tdy.TDyError as e:
            out.append({'err': e.code, 'log': [], 'fn': e.fn, 'msg': e.msg})
    return {'c': out[0], 'f': out[1], 'stat': stat(L)}


def oracle_program(c, o):
    bad = []
    o['seen'] = 0
    for r in (o['ranks'] if 'ranks' in o else [o]):
        a, b = r['c'], r['f']
        if a.get('err') or b.get('err'):
            if a.get('err') != b.get('err'):
                bad.append('C program: %s; Fortran program: %s' % ([a.get(k) for k in ('fn', 'err', 'msg')], [b.get(k) for k in ('fn', 'err', 'msg')]))
            continue
        for k in ('mat', 'reg', 'regti', 'dm'):
            if a.get(k) != b.get(k):
                bad.append('%s differs: C %r, Fortran %r' % (k, str(a.get(k))[:150], str(b.get(k))[:150]))
        if len(a['log']) != len(b['log']):
            bad.append('different numbers of results')
        for i, (x, y) in enumerate(zip(a['log'], b['log'])):
            x, y = np.array(x, dtype=float), np.array(y, dtype=float)
            if x.shape != y.shape or not ((x == y) | (np.isnan(x) & np.isnan(y)) | (abs(x - y) <= 1e-13 * abs(x).max(initial=0))).all():
                bad.append('result %d: C %s, Fortran %s' % (i, x.tolist()[:4], y.tolist()[:4]))
        if r['stat'][0] or r['stat'][1]:
            bad.append('Fortran functions got arrays that are too short (%s)' % r['stat'][:2])
        if r['stat'][2] != 1:
            bad.append("the Fortran program's mesh constructor was called %d times" % r['stat'][2])
        if b.get('h'):
            bad.append('the handle is not null after TDyDestroy')
        o['seen'] += len(a['log'])
    return bad[:5]


def nt_program(c, o):
    return o.get('seen', 0) > 2


def cl_program(c, o):
    r = (o['ranks'][0] if 'ranks' in o else o)
    return [c['kind'], 'error' if r['c'].get('err') else 'done'] + ['fun ' + s for s in c['funs']]


@st.composite
def nothing(draw):
    return {'x': draw(st.integers(0, 3))}


def run_enum(L, c):
    a = (C.c_int * 16)()
    L.so.tdyhf_enum(a)
    return list(a)


def oracle_enum(c, o):
    want = [0, 1, 2, 3, 4, 0, 1, 0, 1, 0, 1, 0, 1, 2, -1, -1]
    return [] if o == want else ["the Fortran module's constants are %s, C's are %s" % (o, want)]


PARTS = [driver.Part('functions', functions, 'run_functions', oracle_functions, (700, 20000), nontrivial=nt_functions, classify=cl_functions),
         driver.Part('functions_asan', functions, 'run_functions', oracle_functions, (60, 1500), nontrivial=nt_functions, classify=cl_functions, variant='asan'),
         driver.Part('program', program, 'run_program', oracle_program, (300, 8000), nontrivial=nt_program, classify=cl_program),
         driver.Part('program2', program, 'run_program', oracle_program, (60, 2000), np=2, nontrivial=nt_program, classify=cl_program),
         driver.Part('constants', nothing, 'run_enum', oracle_enum, (4, 4), nontrivial=lambda c, o: True)]
