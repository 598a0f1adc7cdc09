"""Start, profiling and end of the library: histories of sessions (TDyInit ... TDyFinalize) in one process, with timers or
without, registries, shutdown functions and dycores of every kind in between."""
import ctypes as C, csv, os
import numpy as np
import hypothesis.strategies as st
import gens as G, sim as S
import C21, C22
import driver
RULE = 'a case counts when it has at least two sessions, or timers with a dycore, or more than one shutdown function'
ASSUMPTIONS = ['several sessions in one process need a program that starts MPI itself', 
               'names given to TDyAddProfilingStage outlive the session', 'one of the dycores set up is described when there were several (documented limit of the profile)']
MODES, DISCS = ['RICHARDS', 'TH', 'SALINITY'], C22.DISCS
NAMES = ['pressure', 'p', 'a rather long name of a function', '']
STAGES = [b'Stage one', b'Stage two', b'TDycore Setup']
KEEP = []


def init(L, how, argv):
    L.inited = False
    if how == 'args':
        L.init(argv)
    else:
        L.call('TDyInitNoArguments')
        L.so.shim_push_handler()
        L.so.shim_sig_off()
        r, s = C.c_int(), C.c_int()
        L.so.shim_rank(C.byref(r), C.byref(s))
        L.rank, L.size = r.value, s.value


class Filed:
    """a dycore on a mesh read from a file"""

    def __init__(self, L, c):
        self.L, self.c, self.ev, self.empty = L, c, [], False
        self.s = None

    def life(self):
        self.s = s = C21.Sim(self.L, self.c)
        self.empty = s.empty
        yield 'set up'
        if not self.empty:
            o = C21.observe(s, self.c)
            self.ev.append(o['r'] + o['vol'])
            yield 'residual'

    def end(self):
        self.s.close()


def stage(L):
    i = C.c_int(-7)
    log = C.c_void_p.in_dll(L.petsc, 'petsc_stageLog')
    L.call('PetscStageLogGetCurrent', log, C.byref(i))
    return i.value


def profile(path):
    """(rows of the events, metadata) of a profile, None when there is no such file"""
    if not os.path.exists(path):
        return None
    t = open(path).read()
    head, _, tail = t.partition('METADATA\n')
    rows = list(csv.reader(head.splitlines()))
    ev = {}
    if rows:
        q = [x.strip() for x in rows[0]]
        for r in rows[1:]:
            if len(r) >= 4:
                d = dict(zip(q, [x.strip() for x in r]))
                k = d['Event Name']
                ev.setdefault(k, {}).setdefault(d['Stage Name'], {})[int(d['Rank'])] = int(d['Count'])
    return {'head': rows[0][:4] if rows else None, 'events': {k: v for k, v in ev.items() if k.startswith('TDy')}, 'meta': tail.splitlines()}


def run(L, c):
    o = {'sessions': []}
    if c['ext']:
        L.petsc.MPI_Init(None, None)
    for k, s in enumerate(c['sessions']):
        argv = ['tdyh', '-nox'] + (['-tdy_timers'] if s['timers'] == 'option' else [])
        z = {'init': [], 'get': [], 'ev': [], 'profiles': [], 'stages': [], 'stage': [], 'setups': [], 'empty': False}
        for _ in range(s['inits']):
            init(L, s['how'], argv)
            z['init'].append(int(L.so.TDyInitialized()))
        if s['timers'] == 'call':
            L.call('TDyEnableTimers')
        log, regs, lives = [], {}, []
        for j, op in enumerate(s['ops']):
            if op[0] == 'onfin':
                for q in range(op[1]):
                    cb = C.CFUNCTYPE(None)(lambda j=j, q=q: log.append([j, q]))
                    KEEP.append(cb)
                    L.call('TDyOnFinalize', cb)
            elif op[0] == 'reg':
                f = L.spfun(lambda x, j=j: x[:, 0] * 0 + j, 3)
                KEEP.append(f)
                b = C.create_string_buffer(op[1].encode())
                L.call('TDyRegisterFunction', b, f)
                b.value = b'?' * len(op[1])          # the registry must not rely on the caller's buffer
                regs[op[1]] = C.cast(f, C.c_void_p).value
            elif op[0] == 'get':
                p = C.c_void_p()
                rc = L.rc('TDyGetFunction', op[1].encode(), C.byref(p))
                z['get'].append([op[1], rc != 0, op[1] not in regs, rc == 0 and p.value == regs.get(op[1])])
            elif op[0] == 'stage':
                for _ in range(op[2]):
                    b = C.create_string_buffer(STAGES[op[1]])
                    L.call('TDyAddProfilingStage', b)
                    b.value = b'?' * len(STAGES[op[1]])
                    KEEP.append(b)
                    i = C.c_int(-7)
                    L.call('PetscLogStageGetId', STAGES[op[1]], C.byref(i))
                    z['stages'].append([op[1], i.value])
            elif op[0] == 'profile':
                nm = 'profile-%d-%d.csv' % (k, j)
                before = os.path.exists(nm)
                L.call('TDyWriteTimingProfile', nm.encode())
                L.so.MPI_Barrier(C.c_void_p(L.so.shim_comm(C.c_int(1))))
                z['profiles'].append([j, profile(nm), before])
            elif op[0] == 'dycore':
                d = c['dycores'][op[1] % len(c['dycores'])]
                y = Filed(L, d) if d['what'] == 'file' else C22.make(L, d, None)
                n = 0
                for _ in y.life():
                    n += 1
                    if n == op[3]:
                        break
                z['empty'] |= y.empty
                full = op[3] is None or n < op[3]
                z['ev'].append([op[1] % len(c['dycores']), full, y.ev])
                z['setups'].append([j, op[1] % len(c['dycores']), full])
                z['stage'].append([stage(L), any(isinstance(e, str) for e in y.ev)])
                if op[2]:
                    y.end()
                else:
                    lives.append(y)
        if L.rank == 0:
            for f in ('tdycore_profile.csv',):
                if os.path.exists(f):
                    os.remove(f)
        L.so.MPI_Barrier(C.c_void_p(L.so.shim_comm(C.c_int(1)))) if c['ext'] or L.size > 1 else None
        rank, size = L.rank, L.size
        z['end'] = L.rc('TDyFinalize')
        if c['ext']:
            L.petsc.MPI_Barrier(C.c_void_p(L.so.shim_comm(C.c_int(1))))
        z['after'] = int(L.so.TDyInitialized())
        z['log'] = log
        z['final'] = profile('tdycore_profile.csv')
        o['sessions'].append(z)
        KEEP.extend(lives)
    o['size'] = size
    o['rank'] = rank
    o['cells'] = [ncells(d) for d in c['dycores']]
    o['_recycle'] = True
    return o


def ncells(d):
    m = d['mesh']
    if d['what'] == 'file':
        return len(C21.build(m)[1])
    return int(np.prod(m['n'])) * (2 if m.get('kind') == 'wedge' else 1)


def oracle(c, o):
    bad = []
    seen = {}
    for p, r in enumerate(o['ranks'] if 'ranks' in o else [o]):
        if r.get('_na'):
            continue
        for k, (s, z) in enumerate(zip(c['sessions'], r['sessions'])):
            w = 'rank %d session %d: ' % (p, k)
            if z['init'] != [1] * s['inits'] or z['after'] or z['end']:
                bad.append(w + 'initialized %s after init, %s after the end (returned %s)' % (z['init'], z['after'], z['end']))
            want = [[j, q] for j, op in enumerate(s['ops']) if op[0] == 'onfin' for q in range(op[1])][::-1]
            if z['log'] != want:
                bad.append(w + 'shutdown functions ran as %s..., registered in reverse: %s...' % (z['log'][:5], want[:5]))
            for nm, err, unknown, same in z['get']:
                if err != unknown or not err and not same:
                    bad.append(w + 'function %r: error %s, registered %s, the registered one %s' % (nm, err, not unknown, same))
            ids = dict(z['stages'])
            if any(i < 0 or ids[q] != i for q, i in z['stages']) or len(set(ids.values())) != len(ids):
                bad.append(w + 'stages added have the numbers %s' % z['stages'])
            if any(i and not failed for i, failed in z['stage']):
                bad.append(w + 'a dycore left the profiling stage at %s' % z['stage'])
            for q, full, ev in z['ev']:
                if full and not z['empty']:
                    a = seen.setdefault((p, q), ev)
                    if not same_ev(a, ev):
                        bad.append(w + 'dycore %d gives other values than in another session' % q)
            timed = s['timers'] != 'off'
            setups = lambda upto: [q for j, q, full in z['setups'] if (upto is None or j < upto) and full]
            for j, f, before in z['profiles'] + [[None, z['final'], False]]:
                name = 'the final profile' if j is None else 'profile %d' % j
                if before or (f is not None) != timed:
                    bad.append(w + '%s %s with timers %s' % (name, 'exists' if f else 'is missing', s['timers']))
                elif timed:
                    bad += [w + name + ': ' + b for b in check(c, r, f, setups(j), z)]
    return bad[:6]


def check(c, r, f, did, z):
    bad = []
    if f['head'] != ['Stage Name', 'Event Name', 'Rank', 'Count']:
        return ['is not a profile: %s' % f['head']]
    if z['empty']:
        return []
    n = sum(1 for q in did)
    for rk in range(r['size']):
        for ev in ('TDySetup',):
            got = sum(v.get(rk, 0) for v in f['events'].get(ev, {}).values())
            if got != n:
                bad.append('%s: %d calls on rank %d, there were %d' % (ev, got, rk, n))
    if n and 'TDycore Setup' not in f['events']['TDySetup']:
        bad.append('TDySetup is booked under %s' % list(f['events']['TDySetup']))
    if not did:
        return bad + (['metadata without a dycore: %s' % f['meta']] if f['meta'] else [])
    ok = []
    for q in did:
        d = c['dycores'][q]
        mode = d.get('mode', 'RICHARDS')
        disc = d.get('disc', 'MPFA_O')
        if d['what'] == 'file':
            disc = 'FV_TPF'
        if d['what'] == 'fe':
            disc = 'WY' if 'steps' in d else DISCS[d['disc']]
        ok.append('%s,%s,%d,%s' % (mode, disc, r['size'], r['cells'][q]))
    if len(f['meta']) != 2 or f['meta'][0] != 'Mode,Discretization,NumProc,NumCells' or f['meta'][1] not in ok:
        bad.append('metadata %s, the dycores are %s' % (f['meta'], ok))
    return bad


def same_ev(a, b):
    return len(a) == len(b) and all(isinstance(x, str) and x == y or not isinstance(x, str) and np.array_equal(np.array(x, dtype=float), np.array(y, dtype=float), equal_nan=True) for x, y in zip(a, b))


@st.composite
def filed(draw):
    return dict(draw(C21.cases(8)), what='file')


@st.composite
def case(draw, ext=True):
    ds = draw(st.lists(st.one_of(C22.conf(), C22.conf(), C22.conf(), filed()), min_size=1, max_size=3))
    ses = []
    for _ in range(draw(st.integers(1, 4)) if ext else 1):
        ops = []
        for _ in range(draw(st.integers(0, 6))):
            k = draw(st.sampled_from(['onfin', 'reg', 'get', 'stage', 'profile', 'dycore', 'dycore', 'dycore']))
            if k == 'onfin':
                ops.append([k, draw(st.sampled_from([1, 1, 2, 5, 31, 32, 40, 70]))])
            elif k in ('reg', 'get'):
                ops.append([k, draw(st.sampled_from(NAMES))])
            elif k == 'stage':
                ops.append([k, draw(st.integers(0, 2)), draw(st.integers(1, 2))])
            elif k == 'profile':
                ops.append([k])
            else:
                ops.append([k, draw(st.integers(0, 2)), draw(st.booleans()), None])
        ses.append({'how': draw(st.sampled_from(['args', 'args', 'noargs'])), 'inits': draw(st.sampled_from([1, 1, 2])), 'timers': draw(st.sampled_from(['off', 'option', 'call'])), 'ops': ops})
        if ses[-1]['how'] == 'noargs' and ses[-1]['timers'] == 'option':
            ses[-1]['timers'] = 'call'
    return {'ext': ext, 'dycores': ds, 'sessions': ses}


def nontrivial(c, o):
    return len(c['sessions']) > 1 or any(s['timers'] != 'off' and any(op[0] == 'dycore' for op in s['ops']) or sum(op[1] for op in s['ops'] if op[0] == 'onfin') > 1 for s in c['sessions'])


def classify(c, o):
    return sorted({'%d sessions' % len(c['sessions'])} | {'timers ' + s['timers'] for s in c['sessions']} | {op[0] for s in c['sessions'] for op in s['ops']} |
                  {c['dycores'][op[1] % len(c['dycores'])]['what'] for s in c['sessions'] for op in s['ops'] if op[0] == 'dycore'})


def alone():
    return case(ext=False)


PARTS = [driver.Part('sessions', case, 'run', oracle, (60, 2500), nontrivial=nontrivial, classify=classify, lazy=True, recycle=1),
         driver.Part('program', alone, 'run', oracle, (16, 600), nontrivial=nontrivial, classify=classify, lazy=True, recycle=1),
         driver.Part('sessions_asan', case, 'run', oracle, (24, 800), nontrivial=nontrivial, classify=classify, lazy=True, recycle=1, variant='asan'),
         driver.Part('sessions2', case, 'run', oracle, (12, 400), np=2, nontrivial=nontrivial, classify=classify, lazy=True, recycle=1)]
