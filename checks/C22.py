"""Several dycores in one process, their calls interleaved, settings given in any order, replaced, and mixed with rejected calls:
each must behave as the same dycore configured plainly and alone."""
import ctypes as C
import numpy as np
import hypothesis.strategies as st
import gens as G, meshes as ME, sim as S, cases as CA, fe
import C08, C11, C12, C13, C14, C18, C19
import driver
RULE = 'a case counts when at least two dycores were evaluated and the calls of one came between the calls of another, or rejected or replaced settings came before an evaluation'
ASSUMPTIONS = ['material, condition and curve setters follow TDySetFromOptions, as the demos do', 'the options database holds the options of the dycore that reads it']
DISCS = ['MPFA_O', 'MPFA_O_DAE', 'MPFA_O_TRANSIENTVAR', 'BDM', 'WY', 'FV_TPF']
CONST = {'Porosity': 'TDySetConstantPorosity', 'ResidualSaturation': 'TDySetConstantResidualSaturation', 'SoilDensity': 'TDySetConstantSoilDensity',
         'SoilSpecificHeat': 'TDySetConstantSoilSpecificHeat', 'SalineMolecularWeight': 'TDySetConstantSalineMolecularWeight'}
TENSORS = ('Permeability', 'ThermalConductivity', 'SalineDiffusivity')
BOUND = ('BoundaryPressure', 'BoundaryTemperature', 'BoundarySalineConcentration', 'Forcing')


def property_of(call):
    for k in list(CONST) + list(TENSORS) + list(BOUND) + ['BoundaryPressureType']:
        if call in ('TDySet%sFunction' % k, CONST.get(k)) or k in TENSORS and k in call:
            return k


class Life(S.Sim):
    """one dycore whose calls are the steps of a generator; plain when r is None, else r draws order, detours and rejected calls"""

    def __init__(self, L, c, r=None):
        self.L, self.c, self.r, self.bad, self.ev, self.detours = L, c, r, [], [], 0
        m = c['mesh']
        self.n, self.x, self.nc = m['n'], ME.coords(m), ME.ncells(m)
        self.mean8 = ME.means(m, self.x)
        self.empty = False
        self.t = None

    def say(self, k):
        return self.r is not None and self.r.randint(k) == 0

    def rejected(self, name, *a):
        self.detours += 1
        rc = self.L.rc(name, self.t.h, *a) if name.startswith('shim') else self.t.rc(name, *a)
        if rc == 0:
            self.bad.append('%s was accepted at step "%s"' % (name, self.stage))

    def early(self):
        """calls that must wait for the set-up"""
        out = C.c_void_p()
        for nm in ('TDyUpdateDiagnostics', 'TDyCreateDiagnosticVector', 'TDyCreatePrognosticVector', 'TDyCreateMatrix'):
            if self.say(5):
                self.rejected(nm, *([] if nm == 'TDyUpdateDiagnostics' else [C.byref(out)]))

    def opts(self):
        c = self.c
        o = list(c.get('opts', []))
        if c.get('gravity') is not None:
            o.append(('tdy_gravity', repr(float(c['gravity']))))
        if c.get('bctype') and not self.late:
            o.append(('tdy_%s_boundary_condition_type' % ('fvtpf' if c.get('disc') == 'FV_TPF' else 'mpfao'), c['bctype'] + '_bc'))
        if c.get('gmatrix') and not self.late:
            o.append(('tdy_mpfao_gmatrix_method', c['gmatrix']))
        if c.get('density') is not None and not self.late:
            o.append(('tdy_water_density', ['constant', 'exponential', 'batzle_and_wang'][c['density']]))
        if c.get('visc') is not None and not self.late:
            o.append(('tdy_water_viscosity', ['constant', 'batzle_and_wang'][c['visc']]))
        o += S.vg_opts(c)
        for nm, v in self.byopt:
            o.append((nm, repr(float(v))))
        return o

    def by_option(self):
        """settings this dycore takes from the options database instead of from calls"""
        c, self.byopt, self.skip = self.c, [], set()
        if self.r is None:
            return
        for k, nm, o in (('bc', 'BoundaryPressure', 'pressure'), ('bcT', 'BoundaryTemperature', 'temperature')):
            if c.get(k) and not any(c[k]['a'][1:]) and not self.say(3):
                self.byopt.append(('tdy_%s_bc_value' % o, c[k]['a'][0]))
                self.skip.add('TDySet%sFunction' % nm)

    def apply(self, nm, a):
        if nm.endswith('Function') and nm[6:-8] in BOUND and self.say(2):
            self.L.call('TDyRegisterFunction', b'c22 any dycore', a[0])
            self.t('TDySelect%sFunction' % nm[6:-8], b'c22 any dycore')
        else:
            self.t(nm, *a)

    def detour(self):
        """other modes and discretizations on the way to the right ones"""
        t, r = self.t, self.r
        mode = disc = None
        if self.say(3):
            self.rejected('TDySetDiscretization', int(r.randint(6)))
        for _ in range(r.randint(5)):
            if mode is None or r.randint(2):
                m = int(r.randint(3))
                rc = t.rc('TDySetMode', m)
                ok = disc is None or m == 0 or disc == 0
                mode = m if ok else mode
            else:
                d = int(r.choice([0, 0, 2, 3, 4, 5]))
                rc = t.rc('TDySetDiscretization', d)
                ok = mode == 0 or d == 0
                disc = d if ok else disc
            self.detours += 1
            if (rc == 0) != ok:
                self.bad.append('mode %s with discretization %s: returned %d' % (mode, disc, rc))
            yield 'detour'
        m, d = S.MODE[self.c.get('mode', 'RICHARDS')], S.DISC[self.c.get('disc', 'MPFA_O')]
        if mode != m or disc is None:
            rc = t.rc('TDySetMode', m)
            if (rc == 0) != (disc is None or m == 0 or disc == 0):
                self.bad.append('mode %s over discretization %s: returned %d' % (m, disc, rc))
            if rc:
                t('TDySetDiscretization', 0)
                t('TDySetMode', m)
            yield 'mode'
        t('TDySetDiscretization', d)

    def life(self):
        L, c, r = self.L, self.c, self.r
        self.stage = 'created'
        self.late = self.say(2) and c.get('disc') != 'FV_TPF'
        self.t = t = L.new()
        yield 'new'
        if r is None:
            t('TDySetMode', S.MODE[c.get('mode', 'RICHARDS')])
            t('TDySetDiscretization', S.DISC[c.get('disc', 'MPFA_O')])
        else:
            if self.say(3):
                self.rejected('TDySetup')
            self.early()
            if self.say(4):
                self.rejected('shim_use_ctor')
            yield from self.detour()
        yield 'discretized'
        self.stage = 'discretized'
        t.use_mesh()
        if self.say(3):
            self.rejected('TDySetup')
            self.early()
        if self.late and self.say(2):
            t('TDySetWaterDensityType', int(r.randint(3)))
            t('TDySetWaterViscosityType', int(r.randint(2)))
        yield 'constructor'
        self.by_option()
        L.options(self.opts())
        if c.get('perm') or c['mesh']['kind'] == 'wedge':
            q = S.rng(c.get('perm') or 0)
            co, vo = (q.permutation(self.nc), q.permutation(len(self.x))) if c.get('perm') else (np.arange(self.nc), np.arange(len(self.x)))
            inv = np.argsort(vo)
            conn = ME.cells_of(c['mesh'])
            L.mesh_cells([inv[conn[k][0]] for k in co], self.x[vo])
        else:
            L.mesh_box(self.n, coords=self.x)
        t('TDySetFromOptions')
        self.stage = 'options set'
        dm = C.c_void_p()
        t('TDyGetDM', C.byref(dm))
        if L.so.shim_min_cells(dm) <= 0:
            self.empty = True
            return
        L.options([])
        yield 'options'
        rec = []
        self.t = lambda name, *a: rec.append((name, a))
        self.materials(c['mat'])
        self.t = t
        for k, nm in (('bc', 'BoundaryPressure'), ('bcT', 'BoundaryTemperature'), ('bcS', 'BoundarySalineConcentration'), ('forcing', 'Forcing')):
            if c.get(k):
                rec.append(('TDySet%sFunction' % nm, (L.spfun(S.bfun(c[k]), 3),)))
        if c.get('bctypes'):
            rec.append(('TDySetBoundaryPressureTypeFunction', (L.spifun(C11.btypes(c), 3),)))
        if self.late:
            rec.append(('TDySetWaterDensityType', (c.get('density') or 0,)))
            rec.append(('TDySetWaterViscosityType', (c.get('visc') or 0,)))
            if c.get('gmatrix'):
                rec.append(('TDyMPFAOSetGmatrixMethod', (1,)))
            if c.get('bctype'):
                rec.append(('TDyMPFAOSetBoundaryConditionType', (S.BC[c['bctype']],)))
        rec = [q for q in rec if q[0] not in self.skip]
        if r is not None:
            rec = [rec[k] for k in r.permutation(len(rec))]
        for k, (nm, a) in enumerate(rec):
            if self.say(4):
                self.replaced(nm)
                yield 'replaced'
            self.apply(nm, a)
            if k % 4 == 3:
                yield 'set'
        if r is not None:
            self.early()
            if self.say(4):
                self.rejected('shim_use_ctor')
        yield 'materials'
        self.setup()
        self.stage = 'set up'
        if r is not None:
            if self.say(3):
                self.rejected('TDySetFromOptions')
            if self.say(4):
                self.rejected('shim_use_ctor')
        yield 'set up'
        yield from self.evaluations()

    def replaced(self, nm):
        """another setting of the same thing, which the next call replaces"""
        t, L, r = self.t, self.L, self.r
        self.detours += 1
        p = property_of(nm)
        v = r.uniform(.1, .6)
        if p in CONST:
            if r.randint(2):
                t(CONST[p], v)
            else:
                t('TDySet%sFunction' % p, L.spfun(lambda x: v + 0 * x[:, 0], 3))
        elif p in TENSORS:
            k = r.randint(4)
            if k == 0:
                t('TDySetConstantIsotropic' + p, v)
            elif k == 1:
                t('TDySetConstantDiagonal' + p, np.array([v, 2 * v, 3 * v]))
            elif k == 2:
                t('TDySetConstantTensor' + p, np.diag([v, 2 * v, 3 * v]).reshape(-1))
            else:
                t('TDySetTensor%sFunction' % p, L.spfun(lambda x: np.tile(np.eye(3).reshape(-1) * v, (len(x), 1)), 3, 9))
        elif p == 'BoundaryPressureType':
            k = int(r.randint(3))
            t(nm, L.spifun(lambda x: k + np.zeros(len(x)), 3))
        elif p in BOUND:
            t(nm, L.spfun(lambda x: 1e5 * v + 0 * x[:, 0], 3))
        elif nm.endswith('DensityType'):
            t(nm, int(r.randint(3)))
        elif nm.endswith('ViscosityType') or nm.endswith('GmatrixMethod'):
            t(nm, int(r.randint(2)))
        elif nm == 'TDyMPFAOSetBoundaryConditionType':
            t(nm, int(r.randint(3)))

    def states(self, k):
        c, nc = self.c, self.nc
        at = lambda p: CA.field(dict(p, seed=p['seed'] + 17 * k), nc)
        U, U0 = [at(c['P'])], [at(c['Pprev'])]
        if c.get('mode') == 'TH':
            U, U0 = U + [at(c['T'])], [1e4 * (U0[0] / U0[0].max() - .5), at(c['T']) / 300 - .5]
        elif c.get('disc') == 'MPFA_O_DAE':             # the stored water and its rate
            U, U0 = U + [300 + 1e-3 * (U[0] - U[0].mean())], U0 + [U0[0] / np.abs(U0[0]).max()]
        elif c.get('mode') == 'SALINITY':
            U, U0 = U + [at(c['Psi'])], U0 + [at(c['Psi0'])]
        return np.stack(U, 1), np.stack(U0, 1)

    def keep(self, a):
        self.ev.append(np.asarray(a, dtype=float).reshape(-1).tolist())

    def diagnostics(self):
        t, L = self.t, self.L
        t('TDyUpdateDiagnostics')
        v = C.c_void_p()
        t('TDyCreateDiagnosticVector', C.byref(v))
        out = []
        for nm in ('TDyGetLiquidSaturation', 'TDyGetLiquidMass'):
            t(nm, v)
            out.append(L.vec_get(v))
        L.destroy('Vec', v)
        return np.concatenate(out)

    def evaluations(self):
        c, L = self.c, self.L
        jac = c.get('mode') != 'SALINITY'
        ts = c.get('mode') == 'TH' or c.get('disc') in ('MPFA_O_TRANSIENTVAR', 'MPFA_O_DAE') or c.get('timed')
        jac = jac and c.get('disc') not in ('MPFA_O_TRANSIENTVAR', 'MPFA_O_DAE')
        (self.ts if ts else self.snes)(jac)
        yield 'solver'
        for k in range(c['evals']):
            U, U0 = self.states(k)
            if ts:
                self.keep(self.ifunction(U, (U0 - U0.mean(0)) / c['dt']))
            else:
                if k % 2 == 0:
                    self.prev(U0, c['dt'])
                    yield 'previous'
                self.keep(self.residual(U))
            yield 'residual'
            if jac and k % 2 == 0:
                A, B = C.c_void_p(), C.c_void_p()
                if ts:
                    L.call('TSGetIJacobian', self.tsh, C.byref(A), C.byref(B), None, None)
                    L.call('TSComputeIJacobian', self.tsh, C.c_double(0), self._u, self._ut, C.c_double(1 / c['dt']), A, B, 0)
                else:
                    L.call('SNESGetJacobian', self.s, C.byref(A), C.byref(B), None, None)
                    L.call('SNESComputeJacobian', self.s, self._u, A, B)
                x, y = self.gvec(np.linspace(-1, 1, U.size).reshape(U.shape)), self.gvec()
                L.call('MatMult', B, x, y)
                self.keep(self.get(y))
                L.destroy('Vec', x)
                L.destroy('Vec', y)
                yield 'jacobian'
            if k == c['evals'] - 1 or self.say(4):
                d = self.diagnostics()
                if k == c['evals'] - 1:
                    self.keep(d)
                yield 'diagnostics'

    def end(self):
        if self.t is not None:
            self.close()


class Elements:
    """WY and BDM: set up in one step, then systems and residuals"""

    def __init__(self, L, c, r=None):
        self.L, self.c, self.bad, self.ev, self.detours, self.s, self.empty = L, c, [], [], 0, None, False

    def life(self):
        c, L = self.c, self.L
        wy = 'steps' in c
        s = self.s = fe.FE(L, c, 4 if wy else c['disc'])
        if s.empty:
            self.empty = True
            return
        yield 'set up'
        if wy:
            if c.get('curves'):
                s.set_curves(c['curves'])
            self.h = s.ts()
            for p in c['steps']:
                P, W = C19.state(p, s.nc)
                self.ev.append([v for q in s.ifunction(self.h, P, W) for v in q])
                yield 'residual'
                if p['sys']:
                    self.system('TDyWYComputeSystem')
                    yield 'system'
        else:
            for _ in range(2):
                self.system('TDyWYComputeSystem' if c['disc'] == 4 else 'TDyBDMComputeSystem')
                yield 'system'

    def system(self, fn):
        o = self.s.system(fn)
        self.ev.append([v for row in o['A'] for v in row] + list(o['b']))

    def end(self):
        if self.s:
            if hasattr(self, 'h'):
                self.L.destroy('TS', self.h)
            self.s.close()


class Driven:
    """a run by the library's driver"""

    def __init__(self, L, c, r=None):
        self.L, self.c, self.bad, self.ev, self.detours, self.s, self.empty = L, c, [], [], 0, None, False

    def life(self):
        c, L = self.c, self.L
        s = self.s = C14.Ran(L, c)
        if s.empty:
            self.empty = True
            return
        yield 'set up'
        s.initial(CA.field(c['P'], s.nc))
        yield 'initial'
        for T in c['targets']:
            try:
                s.t('TDyTimeIntegratorRunToTime', float(T))
            except Exception as e:
                self.ev.append(str(e)[-200:])
            ti = s.t.ti()
            self.ev.append([ti['time'], ti['dt']] + s.L.vec_get(s.t.obj('soln')).tolist())
            yield 'run'

    def end(self):
        if self.s:
            self.s.t.destroy() if self.s.empty else S.Sim.close(self.s)


def make(L, c, r):
    return {'fe': Elements, 'run': Driven}.get(c['what'], Life)(L, c, r)


def run(L, c):
    out = []

    def solo(k):
        z = make(L, c['dycores'][k]['c'], None)
        for _ in z.life():
            pass
        z.end()
        return z
    n = len(c['dycores'])
    before = [solo(k) for k in range(n)] if c['before'] else None
    live, cut = [], []
    for k, d in enumerate(c['dycores']):
        z = make(L, d['c'], None if d['plain'] else np.random.RandomState(d['seed'] % 2 ** 32))
        live.append([z, z.life(), 0, True])
    order = []

    def step(k):
        z, g, steps, on = live[k]
        order.append(k)
        if d_cut(k) is not None and steps >= d_cut(k):
            on = False
        else:
            try:
                next(g)
                live[k][2] += 1
            except StopIteration:
                on = False
        if not on:
            live[k][3] = False
            z.end()

    def d_cut(k):
        return c['dycores'][k]['cut']
    for k in c['order']:
        k %= n
        if live[k][3]:
            step(k)
    while any(q[3] for q in live):
        for k in range(n):
            if live[k][3]:
                step(k)
    alone = before or [solo(k) for k in range(n)]
    if any(q[0].empty for q in live):
        return {'_na': 'a process without cells'}
    for k, q in enumerate(live):
        same = [a == b or np.array_equal(np.array(a, dtype=float), np.array(b, dtype=float), equal_nan=True) if not isinstance(a, str) and not isinstance(b, str) else a == b
                for a, b in zip(q[0].ev, alone[k].ev)]
        first = same.index(False) if False in same else None
        o = {'bad': q[0].bad, 'n': len(q[0].ev), 'alone': len(alone[k].ev), 'steps': q[2], 'detours': q[0].detours, 'first': first}
        if first is not None:
            a, b = q[0].ev[first], alone[k].ev[first]
            o['diff'] = [a, b] if isinstance(a, str) or isinstance(b, str) or len(a) != len(b) else [[j, x, y] for j, (x, y) in enumerate(zip(a, b)) if not (x == y or x != x and y != y)][:4]
        o['nan'] = sum(not isinstance(a, str) and bool(np.isnan(np.array(a)).any()) for a in q[0].ev) if L.size == 1 else 0
        out.append(o)
    return {'lives': out, 'switches': sum(a != b for a, b in zip(order, order[1:]))}


@st.composite
def conf(draw, fem=True, runs=True):
    k = draw(st.sampled_from(['rich', 'rich', 'timed', 'tpf', 'th', 'salt'] + (['fe', 'fe'] if fem else []) + (['run'] if runs else [])))
    if k == 'fe':
        c = draw(st.one_of(C18.case(), C19.case()))
    elif k == 'run':
        c = draw(C14.real())
        c['opts'] = c['opts'] + [('tdy_dt_max', repr(float(c['dt'])))]
    else:
        c = draw({'rich': st.one_of(C08.flat(), C08.cube(), C08.two_point()), 'timed': C08.timed(), 'tpf': C11.tpf(), 'th': C12.th(), 'salt': st.one_of(C13.salt(), C13.tpf())}[k])
        if k == 'timed' and c['disc'] == 'MPFA_O':
            c['timed'] = True
        for q in ('bc', 'bcT'):
            if c.get(q) and draw(st.booleans()):
                c[q] = {'a': [c[q]['a'][0], 0.0, 0.0, 0.0, 0.0]}
        if draw(st.integers(0, 3)) == 0:
            c['mat'] = dict(c['mat'], vary=False)
        c['evals'] = draw(st.integers(1, 3))
    c['what'] = k
    return c


@st.composite
def case(draw, most=3, **kw):
    ds = []
    for _ in range(draw(st.sampled_from([1, 2, 2, 3][:most + 1]))):
        if ds and draw(st.integers(0, 3)) == 0:
            c = dict(ds[-1]['c'])           # the same dycore again, next to itself
        else:
            c = draw(conf(**kw))
        ds.append({'c': c, 'plain': draw(st.integers(0, 3)) == 0, 'seed': draw(G.seeds), 'cut': draw(st.integers(0, 12)) if draw(st.integers(0, 5)) == 5 else None})
    return {'dycores': ds, 'order': draw(st.lists(st.integers(0, 5), max_size=30)), 'before': draw(st.booleans())}


def oracle(c, o):
    bad = []
    rk = o['ranks'] if 'ranks' in o else [o]
    for p, q in enumerate(rk):
        for k, v in enumerate(q['lives']):
            d = c['dycores'][k]
            name = 'dycore %d (%s)' % (k, d['c']['what'])
            bad += ['%s: %s' % (name, b) for b in v['bad']]
            if d['cut'] is None and v['n'] != v['alone']:
                bad.append('%s: %d evaluations, alone %d' % (name, v['n'], v['alone']))
            if v['first'] is not None:
                bad.append('%s: evaluation %d differs from the one it gives alone (entry, here, alone): %s' % (name, v['first'], v['diff']))
            if v['nan']:
                bad.append('%s: %d evaluations hold NaN' % (name, v['nan']))
    return bad[:6]


def nontrivial(c, o):
    q = (o['ranks'] if 'ranks' in o else [o])[0]
    n = sum(v['n'] > 0 for v in q['lives'])
    return n > 1 and q['switches'] > n or any(v['n'] and v['detours'] for v in q['lives'])


def classify(c, o):
    q = (o['ranks'] if 'ranks' in o else [o])[0]
    return ['%d dycores' % len(q['lives'])] + sorted({d['c']['what'] for d in c['dycores']}) + (['cut short'] if any(d['cut'] is not None for d in c['dycores']) else []) + (['detours'] if any(v['detours'] for v in q['lives']) else [])


PARTS = [driver.Part('mix', case, 'run', oracle, (240, 8000), nontrivial=nontrivial, classify=classify),
         driver.Part('mix_asan', case, 'run', oracle, (40, 1500), nontrivial=nontrivial, classify=classify, variant='asan'),
         driver.Part('mix2', case, 'run', oracle, (50, 1500), np=2, nontrivial=nontrivial, classify=classify),
         driver.Part('mix_asan2', case, 'run', oracle, (10, 300), np=2, nontrivial=nontrivial, classify=classify, variant='asan')]
