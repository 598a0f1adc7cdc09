"""Time stepping: schedule of steps under scripted solver outcomes, and real runs whose accepted steps must solve the step equations."""
import ctypes as C
import numpy as np
import hypothesis.strategies as st
import gens as G, meshes as ME, sim as S, cases as CA, flow as F
import driver
RULE = 'schedule: at least one step was shortened to land on a target or retried after a failure; runs: at least two accepted steps'
ASSUMPTIONS = ['schedule parts replace the nonlinear solver by a scripted one (accepts or fails as told), so that every pattern of failures is reachable',
               'runs: steps whose solve ends for another reason than the residual norm are not compared with the reference']


class Ran(S.Sim):
    """a simulation set up by the library's own driver"""

    def __init__(self, L, c):
        super().__init__(L, c, setup=False)
        if self.empty:
            return
        t = self.t
        t('TDyDriverInitializeTDy')
        self.dm = C.c_void_p()
        t('TDyGetDM', C.byref(self.dm))
        self.map()
        if c.get('curves'):
            self.set_curves(c['curves'])

    def initial(self, U):
        """initial condition in natural ordering, as a user gives it (natural numbering = the DM's, before distribution)"""
        g = self.gvec(U)
        nat = self.L.vec_dup(g)
        self.t('TDyGlobalToNatural', g, nat)
        self.t('TDySetInitialCondition', nat)
        self.L.destroy('Vec', g)
        self.L.destroy('Vec', nat)

    def vec(self, name):
        return self.get(self.t.obj(name))

    def script(self, codes, mx):
        self.codes = np.array(codes or [0], dtype=np.int32)
        self.len = len(self.L.vec_get(self.t.obj('soln')))
        self.log = np.zeros((mx, 5 + 3 * self.len))
        self.L.so.shim_script(self.t.h, C.c_int(len(codes)), self.codes.ctypes.data_as(C.POINTER(C.c_int)), C.c_int(mx), self.log.ctypes.data_as(C.POINTER(C.c_double)))

    def entries(self):
        return [(int(r[2]), r[0], r[1], int(r[3]), int(r[4]), r[5:5 + self.len], r[5 + self.len:5 + 2 * self.len], r[5 + 2 * self.len:])
                for r in self.log[:min(len(self.log), self.L.so.shim_script_count())]]

    def lattice(self, a):
        w = a.size // max(1, len(self.ownlat))
        out = np.full((self.nc, w), np.nan)
        if a.size:
            out[self.ownlat] = a.reshape(len(self.ownlat), w)
        return out[:, 0] if w == 1 else out

    def close(self):
        self.L.so.shim_script(None, C.c_int(0), None, C.c_int(0), None)
        super().close()


def closing(f):
    def run(L, c):
        s = Ran(L, c)
        if s.empty:
            s.t.destroy()
            return {'_na': 'a process without cells'}
        o = f(s, c)
        s.close()
        return o
    return run


# ------------------------------------------------------------------ schedule
MAXCUT = 25
LIMIT = 600


@st.composite
def schedule(draw):
    mode, disc = draw(st.sampled_from([('RICHARDS', 'MPFA_O'), ('RICHARDS', 'FV_TPF'), ('SALINITY', 'MPFA_O')]))
    c = {'mesh': {'kind': 'cube', 'n': draw(st.sampled_from([[1, 1, 1], [2, 1, 1], [2, 2, 1]])), 'seed': 0, 'size': 1.0}, 'mode': mode, 'disc': disc}
    ti = {}
    if draw(st.booleans()):
        ti['dt_init'] = draw(st.sampled_from([1.0, 10.0, 0.3, 1800.0]))
    if draw(st.booleans()):
        ti['dt_max'] = draw(st.sampled_from([5.0, 100.0, 2000.0, 0.25]))
    if draw(st.booleans()):
        ti['dt_growth_factor'] = draw(st.sampled_from([1.0, 1.25, 2.0, 1.1, 10.0]))
    if draw(st.booleans()):
        ti['dt_reduction_factor'] = draw(st.sampled_from([0.5, 0.1, 0.9, 0.25]))
    c['ti'] = ti
    t, ops = 0.0, []
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.integers(0, 9))
        if k < 2:
            ops.append(['dt', draw(st.sampled_from([1.0, 7.0, 0.5, 60.0, 1e4]))])
        else:
            # absolute targets, sometimes equal to or before the time already reached
            t = max(0.0, t + draw(st.sampled_from([1.0, 3.7, 10.0, 50.0, 0.1, 0.0, 200.0, -1.0])))
            ops.append(['run', t])
    c['ops'] = ops
    c['script'] = draw(st.lists(st.sampled_from([1, 1, 1, 2, 3, 1]), max_size=40)) + [1]
    if draw(st.integers(0, 11)) == 0:
        k = draw(st.integers(MAXCUT - 2, MAXCUT + 1))       # a long run of failures
        p = draw(st.integers(0, len(c['script']) - 1))
        c['script'] = c['script'][:p] + [2] * k + [1]
    if draw(st.integers(0, 11)) == 0:
        c['script'] = [2, 1] * 30 + [1]                     # many cuts, one per step
    c['bctype'] = 'neumann'
    c['opts'] = [('tdy_' + k, repr(v)) for k, v in sorted(ti.items())]
    return c


def observe_schedule(s, c):
    nd = 2 if c['mode'] == 'SALINITY' else 1
    U = np.array([1e5 * np.arange(1, s.nc + 1), 0.1 * np.arange(1, s.nc + 1)])[:nd].T
    s.initial(U)
    s.script(c['script'], LIMIT)
    out = []
    k0 = 0
    for op in c['ops']:
        err = None
        if op[0] == 'dt':
            s.t('TDyTimeIntegratorSetTimeStep', float(op[1]))
        else:
            try:
                s.t('TDyTimeIntegratorRunToTime', float(op[1]))
            except Exception as e:
                err = str(e)
        ti = s.t.ti()
        es = s.entries()[k0:]
        k0 += len(es)
        out.append({'solves': [[e[1], e[2], e[0], e[3], e[4]] + [np.nan_to_num(v, nan=-9e99).tolist() for v in e[5:]] for e in es], 'err': err,
                    'ti': ti, 'prev': s.L.vec_get(s.t.obj('soln_prev')).tolist(), 'soln': np.nan_to_num(s.L.vec_get(s.t.obj('soln')), nan=-9e99).tolist()})
        if err:
            break
    return {'ops': out, 'start': U[s.ownlat].reshape(-1).tolist()}


run_schedule = closing(observe_schedule)


def schedule_oracle(c, o):
    if 'ranks' in o:
        a = [[[x[:5] for x in q['solves']] for q in r['ops']] for r in o['ranks']]
        if any(x != a[0] for x in a):
            return ['the ranks disagree on the steps taken']
        return [m for r in o['ranks'] for m in schedule_oracle(c, r)]
    ti = {'dt_init': 1.0, 'dt_max': 1e20, 'dt_growth_factor': 1.25, 'dt_reduction_factor': 0.5}
    ti.update(c['ti'])
    bad = []
    near = lambda a, b, s=1.0: abs(a - b) <= 1e-9 * max(abs(a), abs(b), s * 1e-3)
    t, dt, istep, last = 0.0, ti['dt_init'], 0, o['start']
    o['cut'] = o['clip'] = 0
    for op, q in zip(c['ops'], o['ops']):
        if op[0] == 'dt':
            dt = op[1]
            continue
        T, first, cuts = op[1], True, 0
        if q['solves'] == [] and t < T and not near(t, T) and not q['err']:
            return bad + ['no step was taken between %r and %r' % (t, T)]
        gave_up = False
        for (D, tt, ist, code, why, x, prev, xout) in q['solves']:
            if t >= T:
                return bad + ['a step of %r was taken at %r although the target %r is reached' % (D, t, T)]
            if not near(tt, t):
                return bad + ['the clock reads %r before a solve, accepted steps add up to %r' % (tt, t)]
            if ist != istep:
                return bad + ['step counter %d before a solve, %d steps were accepted' % (ist, istep)]
            if cuts == 0:
                want = min(dt, T - t)
                clip = dt > T - t
            if not near(D, want) and not near(t, T):
                return bad + ['step size %r at time %r, expected %r (target %r, previous outcomes %s)' % (D, t, want, T, c['script'][:12])]
            if x != last:
                return bad + ['a solve starts from %s, the last accepted solution is %s' % (x[:4], last[:4])]
            if prev != last:
                return bad + ['the previous solution during a solve is %s, the last accepted one is %s' % (prev[:4], last[:4])]
            if code in (2, 3):
                cuts += 1
                o['cut'] += 1
                want = D * ti['dt_reduction_factor']
                gave_up = cuts == MAXCUT
                if gave_up:
                    break
            else:
                t, istep, last = t + D, istep + 1, xout
                base = D
                if clip and cuts == 0:
                    t, base = T, dt
                    o['clip'] += 1
                dt = min(base * ti['dt_growth_factor'], ti['dt_max'])
                cuts = 0
        if gave_up:
            if not q['err']:
                bad.append('no error after %d failed attempts of one step' % MAXCUT)
            return bad
        if q['err'] and sum(len(x['solves']) for x in o['ops']) >= LIMIT:
            return bad      # log full: the steps up to here were right
        if q['err']:
            return bad + ['run to %r failed: %s' % (T, q['err'])]
        if t < T and not near(t, T):
            return bad + ['returned at %r, before the target %r' % (t, T)]
        z = q['ti']
        if not near(z['time'], max(t, 0.0)):
            bad.append('clock %r after running to %r' % (z['time'], T))
        if z['istep'] < istep:
            bad.append('step counter %r after %d accepted steps' % (z['istep'], istep))
        if not near(t, T) and t > T and q['solves']:
            bad.append('overshot: %r past the target %r' % (t, T))
        if q['prev'] != last or q['soln'] != last:
            bad.append('after the run the solution is %s / %s, the last accepted one is %s' % (q['soln'][:3], q['prev'][:3], last[:3]))
    return bad


def schedule_nt(c, o):
    r = o['ranks'][0] if 'ranks' in o else o
    return r.get('cut', 0) + r.get('clip', 0) > 0


def schedule_class(c, o):
    r = o['ranks'][0] if 'ranks' in o else o
    return [c['mode'] + '/' + c['disc'], 'cuts' if r.get('cut') else 'no cut', 'clipped' if r.get('clip') else 'not clipped', 'gave up' if any(q['err'] for q in r['ops']) else 'finished']


# ------------------------------------------------------------------ real runs
@st.composite
def real(draw):
    disc = draw(st.sampled_from(['MPFA_O', 'MPFA_O', 'FV_TPF']))
    kinds = ('tensor', 'cube') if disc == 'FV_TPF' else ('tensor', 'affine', 'columns', 'wedge', 'cube')
    c = draw(CA.richards(kinds=kinds, nmax=3, cells=12, bcs=('dirichlet', 'neumann', 'seepage'), gravity=(0.0, 9.8068), perm=disc != 'FV_TPF',
                         kinds_K=('iso', 'diag') if disc == 'FV_TPF' else ('iso', 'diag', 'full')))
    c['disc'] = disc
    c['mat']['scale'] = draw(st.sampled_from([1e-11, 1e-12, 1e-13]))
    c['P'] = {'seed': draw(G.seeds), 'lo': draw(st.sampled_from([8e4, 9.5e4])), 'hi': draw(st.sampled_from([1.0e5, 1.1e5]))}
    c['dt'] = draw(G.logf(1.0, 1e4)) * c['mesh']['size'] ** 2
    c['targets'] = [c['dt'] * x for x in draw(st.sampled_from([[1.0], [2.5], [0.7, 3.0], [4.0]]))]
    c['script'] = draw(st.sampled_from([[], [], [0, 4, 0], [4, 0, 0, 4, 4, 0], [2, 0, 0, 3, 0]]))
    c['opts'] = [('snes_rtol', '1e-9'), ('snes_stol', '0'), ('snes_atol', '1e-18'), ('snes_max_it', draw(st.sampled_from(['40', '40', '35', '3']))), ('ksp_type', 'preonly'), ('pc_type', 'redundant'),
                 ('tdy_dt_init', repr(float(c['dt'])))]
    return c


def observe_real(s, c):
    U = CA.field(c['P'], s.nc)
    s.initial(U)
    s.script(c['script'] + [0], 200)
    err = None
    for T in c['targets']:
        try:
            s.t('TDyTimeIntegratorRunToTime', float(T))
        except Exception as e:
            err = str(e)
            break
    q = [C.c_double(), C.c_double(), C.c_double(), C.c_int(), C.c_int()]
    s.L.call('SNESGetTolerances', s.t.obj('snes'), *[C.byref(v) for v in q])
    o = {'err': err, 'tol': [v.value for v in q[:4]], 'lat': s.ownlat.tolist(), 'prev': s.L.vec_get(s.t.obj('soln_prev')).tolist(), 'time': s.t.ti()['time'],
         'steps': [[e[1], e[2], e[3], e[4], np.nan_to_num(e[6], nan=-9e99).tolist(), np.nan_to_num(e[7], nan=-9e99).tolist()] for e in s.entries()]}
    return o


run_real = closing(observe_real)


def real_oracle(c, o):
    g = ME.Geom(c['mesh'])
    M = S.Mat(c['mat'], g.nc)
    rk = o['ranks'] if 'ranks' in o else [o]
    o['acc'] = 0
    if any(bool(r['err']) != bool(rk[0]['err']) for r in rk):
        return ['only some ranks report an error']
    bad = []
    z = dict(c['opts'])
    want = [float(z['snes_atol']), float(z['snes_rtol']), float(z['snes_stol']), float(z['snes_max_it'])]
    if any(r['tol'] != want for r in rk):
        bad.append('solver tolerances %s, the options say %s' % (rk[0]['tol'], want))
    if rk[0]['err']:
        n = len(rk[0]['steps'])
        if n < 200 and not (n >= 25 and all(x[3] < 0 for x in rk[0]['steps'][-25:])):
            return ['run failed without 25 failed attempts: %s' % rk[0]['err']]
    else:
        for r in rk:
            if not abs(r['time'] - c['targets'][-1]) <= 1e-9 * c['targets'][-1]:
                bad.append('clock %r at the end, target %r' % (r['time'], c['targets'][-1]))
    last = CA.field(c['P'], g.nc)
    bc = S.bfun(c['bc']) if c.get('bc') else None
    for k in range(len(rk[0]['steps'])):
        D, t, code, why = rk[0]['steps'][k][:4]
        prev, new = np.full(g.nc, np.nan), np.full(g.nc, np.nan)
        for r in rk:
            if r['steps'][k][:4] != rk[0]['steps'][k][:4]:
                return bad + ['ranks disagree on step %d' % k]
            prev[r['lat']], new[r['lat']] = r['steps'][k][4], r['steps'][k][5]
        if not (prev == last).all():
            return bad + ['step %d starts from another solution than the last accepted one' % k]
        if why < 0:
            continue
        o['acc'] += 1
        if c['disc'] == 'FV_TPF':
            R = lambda P: F.richards_tpf(g, c, M, P, prev, D, bc, lambda k: c['bctype'])[:2]
        else:
            R = lambda P: F.richards_mpfao(g, c, M, P, prev, D, bc, c['bctype'])[:2]
        if why == 3 and o['acc'] <= 3:
            r0, m0 = R(prev)
            r1, m1 = R(new)
            tol = 1e-9 * np.linalg.norm(r0) + 1e-8 * np.linalg.norm(m1) * (10 if c.get('mesh')['kind'] == 'wedge' else 1)
            if not np.linalg.norm(r1) <= tol:
                bad.append('accepted step %d (dt %r): the reference residual of the new solution is %r, tolerance %r (at the start %r)' % (k, D, np.linalg.norm(r1), tol, np.linalg.norm(r0)))
        last = new
    if not rk[0]['err']:
        for r in rk:
            if r['prev'] != last[r['lat']].tolist():
                bad.append('the final solution is not the last accepted one')
    return bad[:4]


# ------------------------------------------------------------------ PETSc time stepper
@st.composite
def stepped(draw):
    mode = draw(st.sampled_from(['RICHARDS', 'RICHARDS', 'TH']))
    c = draw(CA.richards(kinds=('tensor', 'affine', 'columns', 'wedge'), nmax=3, cells=8, bcs=('dirichlet', 'neumann'), gravity=(0.0, 9.8068), perm=False))
    c['mode'] = mode
    c['disc'] = draw(st.sampled_from(['MPFA_O', 'MPFA_O', 'MPFA_O_TRANSIENTVAR', 'MPFA_O_DAE'])) if mode == 'RICHARDS' else 'MPFA_O'
    c['mat']['scale'] = draw(st.sampled_from([1e-11, 1e-12]))
    c['P'] = {'seed': draw(G.seeds), 'lo': draw(st.sampled_from([8e4, 9.5e4])), 'hi': draw(st.sampled_from([1.0e5, 1.1e5]))}
    c['dt'] = draw(G.logf(0.1, 300.0)) * c['mesh']['size'] ** 2
    c['targets'] = [c['dt'] * x for x in draw(st.sampled_from([[1.0], [1.0, 2.0], [2.5], [1.0, 3.5, 4.0], [0.5, 1.25], [0.25, 3.0], [0.3, 0.4, 2.0, 4.5]]))]
    c['opts'] = [('snes_rtol', '1e-8' if mode == 'RICHARDS' else '1e-2'), ('snes_stol', '0'), ('snes_atol', '1e-18'), ('snes_max_it', '40'), ('ksp_type', 'preonly'), ('pc_type', 'redundant'),
                 ('tdy_dt_init', repr(float(c['dt']))), ('tdy_time_integration_method', 'TS'), ('ts_type', 'beuler')]
    if c['disc'] == 'MPFA_O_TRANSIENTVAR':
        # no Jacobian of its own; only this stepper of PETSc knows transient variables
        c['opts'] = c['opts'][:-1] + [('ts_type', 'bdf'), ('ts_bdf_order', '1'), ('ts_adapt_type', 'none'), ('snes_fd', None)]
    if c['disc'] == 'MPFA_O_DAE':
        c['opts'].append(('snes_fd', None))
    if mode == 'TH' and c['bctype'] == 'dirichlet':
        c['bcT'] = {'a': [20.0, 0, 0, 0, 0]}
    return c


def observe_ts(s, c):
    P = CA.field(c['P'], s.nc)
    if c['disc'] == 'MPFA_O_DAE':           # the stored water that fits the pressures
        M = S.Mat(c['mat'], s.nc)
        q = F.state(c, M, P, s.nc)
        s.initial(np.stack([P, q['rho'] * q['S'] * M.phi], 1))
    else:
        s.initial(P if c['mode'] == 'RICHARDS' else np.stack([P, 20.0 + 0 * P], 1))
    h = s.t.obj('ts')
    seen = []
    V = C.c_void_p

    def mon(ts, k, t, u, ctx):
        seen.append([k, t, s.L.vec_get(V(u)).tolist()])
        return 0
    cb = C.CFUNCTYPE(C.c_int, V, C.c_int, C.c_double, V, V)(mon)
    s.L.keep.append(cb)
    s.L.call('TSMonitorSet', h, cb, None, None)
    out, err = [], None
    nf = C.c_int()
    for T in c['targets']:
        k = len(seen)
        try:
            s.t('TDyTimeIntegratorRunToTime', float(T))
        except Exception as e:
            err = str(e)
            break
        why = C.c_int()
        s.L.call('TSGetConvergedReason', h, C.byref(why))
        s.L.call('TSGetSNESFailures', h, C.byref(nf))
        out.append({'why': why.value, 'failures': nf.value, 'time': s.t.ti()['time'], 'seen': seen[k:], 'soln': s.L.vec_get(s.t.obj('soln')).tolist(), 'prev': s.L.vec_get(s.t.obj('soln_prev')).tolist()})
    return {'err': err, 'runs': out, 'lat': s.ownlat.tolist(), 'start': s.L.vec_get(s.t.obj('soln')).tolist() if not out else None}


run_ts = closing(observe_ts)


def ts_oracle(c, o):
    import C08
    g = ME.Geom(c['mesh'])
    M = S.Mat(c['mat'], g.nc)
    rk = o['ranks'] if 'ranks' in o else [o]
    o['acc'] = 0
    for r in rk:
        if r['err']:
            # a step the stepper could not take ends the run with an error (-91): nothing to compare then
            return [] if 'TSStep' in r['err'] or ' 91' in r['err'] else ['run failed: ' + r['err']]
    bad = []
    flow, w = c['mode'] == 'RICHARDS', 1 if c['mode'] == 'RICHARDS' and c['disc'] != 'MPFA_O_DAE' else 2
    last, t = CA.field(c['P'], g.nc), 0.0
    bc = S.bfun(c['bc']) if c.get('bc') else None
    stored = lambda p: (lambda s: s['rho'] * s['S'] * M.phi * g.vol)(F.state(c, M, p, g.nc))
    for i, T in enumerate(c['targets']):
        q = [r['runs'][i] for r in rk]
        if any(x['why'] < 0 for x in q):
            return bad
        for x in q:
            if not abs(x['time'] - T) <= 1e-9 * T:
                bad.append('clock %r after running to %r' % (x['time'], T))
            if x['soln'] != x['prev']:
                bad.append('the accepted solution is not the previous solution of the next step')
            if x['seen'] and x['seen'][-1][2] != x['soln']:
                bad.append('the solution is not that of the last step taken')
        for k in range(len(q[0]['seen'])):
            tk = q[0]['seen'][k][1]
            new, m = np.full(g.nc, np.nan), np.full(g.nc, np.nan)
            for r, x in zip(rk, q):
                if x['seen'][k][1] != tk:
                    return bad + ['ranks disagree on the time of step %d' % k]
                new[r['lat']] = np.array(x['seen'][k][2])[::w]
                if c['disc'] == 'MPFA_O_DAE':
                    m[r['lat']] = np.array(x['seen'][k][2])[1::2]
            dt = tk - t
            if dt <= 1e-12 * T:
                if not (new == last).all():
                    bad.append('run %d starts from another solution than the previous run ended with' % i)
                continue
            if tk > T * (1 + 1e-9):
                bad.append('step to %r beyond the target %r' % (tk, T))
            if dt > c['dt'] * (1 + 1e-9):
                bad.append('step of %r although the step size is %r' % (dt, c['dt']))
            if not q[0]['failures'] and dt < min(c['dt'], (T - t) / 2) * (1 - 1e-9):      # landing on the target may halve the last two
                bad.append('step of %r at %r although the step size is %r and the target %r' % (dt, t, c['dt'], T))
            o['acc'] += 1
            if c['disc'] == 'MPFA_O_DAE' and not (np.abs(m * g.vol - stored(new)) <= 1e-5 * stored(new)).all():
                bad.append('stored water %s after the step to %r, the pressures store %s' % ((m * g.vol).tolist()[:3], tk, stored(new).tolist()[:3]))
            if flow and o['acc'] <= 3:
                def R(P):
                    r, m, _, _ = F.richards_mpfao(g, c, M, P, P, np.inf, bc, c['bctype'])
                    if c['disc'] != 'MPFA_O':          # the stored water itself is differenced
                        a, b = stored(P) / dt, stored(last) / dt
                        return r + a - b, m + np.abs(a - b) + 1e-9 * (a + b), 0 * a
                    d, e = [(8 * (stored(P + h) - stored(P - h)) - (stored(P + 2 * h) - stored(P - 2 * h))) / (12 * h) for h in (1.0, 0.5)]
                    a = e * (P - last) / dt
                    return r + a, m + np.abs(a), 10 * np.abs(d - e) * np.abs(P - last) / dt      # a kink of the curves within the difference
                r0, m0, _ = R(last)
                r1, m1, e1 = R(new)
                tol = 1e-8 * np.linalg.norm(r0) + 1e-5 * np.linalg.norm(m1) + np.linalg.norm(e1)
                if not np.linalg.norm(r1) <= tol:
                    bad.append('step to %r (dt %r): the reference residual of the new solution is %r, tolerance %r (at the start %r)' % (tk, dt, np.linalg.norm(r1), tol, np.linalg.norm(r0)))
            last, t = new, tk
    return bad[:4]


def ts_class(c, o):
    return [c['mode'] + '/' + c['disc'] + '/' + c['bctype'], 'steps %d' % min(5, o.get('acc', 0)), c['disc'] + (' took steps' if o.get('acc') else ' took none')]


def real_nt(c, o):
    return o.get('acc', 0) > 1


def real_class(c, o):
    r = o['ranks'][0] if 'ranks' in o else o
    return [c['disc'] + '/' + c['bctype'], 'failed' if r['err'] else 'finished', 'injected failures' if c['script'] else 'plain', 'accepted %d' % min(6, o.get('acc', 0))]


PARTS = [driver.Part('schedule', schedule, 'run_schedule', schedule_oracle, (300, 8000), nontrivial=schedule_nt, classify=schedule_class),
         driver.Part('schedule2', schedule, 'run_schedule', schedule_oracle, (40, 800), np=2, nontrivial=schedule_nt, classify=schedule_class),
         driver.Part('real', real, 'run_real', real_oracle, (150, 4000), nontrivial=real_nt, classify=real_class),
         driver.Part('ts', stepped, 'run_ts', ts_oracle, (110, 2400), nontrivial=real_nt, classify=ts_class),
         driver.Part('ts2', stepped, 'run_ts', ts_oracle, (30, 600), np=2, nontrivial=real_nt, classify=ts_class),
         driver.Part('real2', real, 'run_real', real_oracle, (40, 800), np=2, nontrivial=real_nt, classify=real_class),
         driver.Part('real_asan2', real, 'run_real', real_oracle, (12, 300), np=2, nontrivial=real_nt, classify=real_class, variant='asan')]
