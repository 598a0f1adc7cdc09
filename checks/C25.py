"""Memory: a dycore that is destroyed gives back everything it took. Sessions of the other checks (every mode, discretization,
mesh source, evaluation, run, file) are repeated in one process; what PETSc's allocator has handed out must not grow."""
import collections, ctypes as C, importlib, os, re
import numpy as np
import hypothesis.strategies as st
import driver, gens as G
import C05, C07, C08, C09, C10, C11, C12, C13, C14, C15, C16, C17, C18, C19, C21, C22, C24, C26
RULE = 'a case counts when its session ran four times to its end without an error; sessions whose peak needed no memory of their own do not count'
ASSUMPTIONS = ['growth means growth in the third and in the fourth repetition (registries and caches fill up in the first ones)', 'sessions that end in an error are left out: error paths may keep memory']
# sessions of other checks: module, part, weight
DONORS = [('C05', 'mesh', 1), ('C07', 'steady', 1), ('C07', 'tpf', 1), ('C08', 'flat', 1), ('C08', 'tpf', 1), ('C08', 'timed', 1), ('C09', 'fv', 1), ('C10', 'ts', 1),
          ('C10', 'snes', 1), ('C11', 'jac', 1), ('C11', 'tpf', 1), ('C12', 'res', 1), ('C12', 'jac', 1), ('C13', 'flat', 1), ('C13', 'tpf', 1), ('C14', 'schedule', 1), ('C14', 'real', 1),
          ('C14', 'ts', 1), ('C15', 'output', 2), ('C15', 'restart', 1), ('C16', 'config', 3), ('C16', 'meshes', 1), ('C17', 'history', 2), ('C18', 'sys', 2), ('C19', 'res', 1),
          ('C21', 'mesh', 3), ('C21', 'jac', 1), ('C22', 'mix', 2), ('C24', 'richards', 1), ('C24', 'th', 1), ('C24', 'steady', 1), ('C24', 'alone', 1)]
IDENT = {'C%02d' % i: globals()['C%02d' % i] for i in list(range(5, 20)) + [21, 22, 24] if 'C%02d' % i in globals()}


def donor(mod, part):
    return driver.get_part(IDENT[mod], part)


@st.composite
def session(draw, np=1, names=None):
    mod, part, _ = draw(st.sampled_from([d for d in DONORS for _ in range(d[2]) if names is None or d[0] in names]))
    p = donor(mod, part)
    c = driver.grow(draw(p.strategy()), np)
    return {'of': [mod, part], 'case': c}


@st.composite
def early(draw, np=1):
    """dycores destroyed part of the way through their life"""
    c = draw(C22.case(most=2))
    for d in c['dycores']:
        d['cut'] = draw(st.integers(0, 9))
        d['c'] = driver.grow(d['c'], np)
    return {'of': ['C22', 'mix'], 'case': c, 'early': True}


@st.composite
def settings(draw):
    """material properties and conditions given again and again, by every setter there is, to dycores of every mode and discretization"""
    mode = draw(st.sampled_from([0, 0, 1, 2]))
    return {'of': ['C25', 'settings'], 'case': {'mode': mode, 'disc': 0 if mode else draw(st.integers(0, 5)), 'n': draw(st.lists(st.integers(1, 2), min_size=3, max_size=3)),
            'seed': draw(G.seeds), 'sets': draw(st.integers(0, 40)), 'few': draw(st.sampled_from([2, 5, 60])), 'opts': draw(st.integers(1, 3)), 'setup': draw(st.sampled_from(['', 'setup', 'driver'])),
            'bc': draw(st.lists(st.sampled_from(['pressure_bc_value', 'velocity_bc_value', 'temperature_bc_value', 'pressure_bc_func', 'velocity_bc_func', 'temperature_bc_func']), unique=True, max_size=3))}}


def settings_run(L, c):
    r, mode, disc = np.random.RandomState(c['seed'] % 2 ** 32), c['mode'], c['disc']
    L.call('TDyRegisterFunction', b'c25', L.spfun(lambda x: 0 * x[:, 0] + 1e5, 3))
    L.mesh_box(c['n'])
    L.options([('tdy_' + k, 'c25' if k.endswith('func') else '%g' % (1e5 if k[0] == 'p' else .5)) for k in c['bc'] if k.endswith('func') or k.replace('value', 'func') not in c['bc']] + [('tdy_time_integration_method', 'TS' if mode == 1 or disc == 2 else 'SNES')])
    t = L.new()
    t('TDySetMode', mode)
    t('TDySetDiscretization', disc)
    t.use_mesh()
    t('TDySetFromOptions')
    pick = r.permutation(len(C26.setters(L)) + len(C26.SELECT))[:c['few']]
    for k in range(c['sets']):
        if r.randint(12) == 0 and c['opts'] > 1:
            t('TDySetFromOptions')
        q = C26.setters(L) + [('TDySelect%sFunction' % p, b'c25') for p in C26.SELECT]
        name, a = q[pick[r.randint(len(pick))]]
        t(name, a)
        if r.randint(4) == 0:
            t(name, a)
    if c['setup']:
        for nm, a in C26.setters(L):
            if nm in ('TDySetConstantPorosity', 'TDySetConstantIsotropicPermeability', 'TDySetConstantResidualSaturation', 'TDySetConstantIsotropicThermalConductivity', 'TDySetConstantSoilDensity',
                      'TDySetConstantSoilSpecificHeat', 'TDySetConstantIsotropicSalineDiffusivity', 'TDySetConstantSalineMolecularWeight'):
                t(nm, a)
        t('TDySetup' if c['setup'] == 'setup' or disc in (1, 3, 4) else 'TDyDriverInitializeTDy')
    L.options([])
    t.destroy()
    return {'n': c['sets']}


def usage(L):
    v = C.c_double()
    L.call('PetscMallocGetCurrentUsage', C.byref(v))
    return v.value


def blocks(L):
    """call stack of every block PETSc's allocator has handed out -> how often"""
    f = 'blocks.%d' % os.getpid()
    lc = C.CDLL(None)
    lc.fopen.restype = C.c_void_p
    fp = C.c_void_p(lc.fopen(f.encode(), b'w'))
    L.call('PetscMallocDump', fp)
    lc.fclose(fp)
    out, at = collections.Counter(), None
    for l in open(f, errors='replace'):
        m = re.search(r'(\d+) bytes (\S+?)\(\)', l)
        if m:
            at = m.group(2)
            out[at] += 1
    os.remove(f)
    return out


def run(L, c):
    mod, part = c['of']
    if part == 'settings':
        f = settings_run
    else:
        p = donor(mod, part)
        f = getattr(importlib.import_module(p.module or mod), p.run)
    use, why = [], None
    for k in range(4):
        if k == 3:
            before = blocks(L)
        o = f(L, c['case'])
        if isinstance(o, dict) and ('_na' in o or 'err' in o):
            return {'_na': 'the session ' + ('ended early: ' + o['_na'] if '_na' in o else 'met an error')}
        del o
        use.append(usage(L))
    d = [b - a for a, b in zip(use, use[1:])]
    o = {'use': use, 'grow': d}
    if min(d[1:]) > 0:
        o['at'] = sorted((blocks(L) - before).items())
    return o


def oracle(c, o):
    bad = []
    for k, x in enumerate(o['ranks'] if 'ranks' in o else [o]):
        if min(x['grow'][1:]) > 0:
            bad.append('process %d keeps %d bytes each time a session of %s %s is repeated; blocks allocated in %s' % (k, min(x['grow'][1:]), *c['of'], x.get('at')))
    return bad


def classify(c, o):
    return ['%s %s' % tuple(c['of'])] + (['destroyed early'] if c.get('early') else [])


def nontrivial(c, o):
    if c['of'][1] == 'settings' and c['case']['sets'] < 3:
        return False
    return all(x['use'][0] > 0 for x in (o['ranks'] if 'ranks' in o else [o]))


PARTS = [driver.Part('sessions', session, 'run', oracle, (260, 8000), nontrivial=nontrivial, classify=classify),
         driver.Part('settings', settings, 'run', oracle, (120, 4000), nontrivial=nontrivial, classify=classify),
         driver.Part('early', early, 'run', oracle, (60, 2000), nontrivial=nontrivial, classify=classify),
         driver.Part('sessions2', lambda: session(np=2), 'run', oracle, (60, 2000), np=2, nontrivial=nontrivial, classify=classify),
         driver.Part('early2', lambda: early(np=2), 'run', oracle, (20, 600), np=2, nontrivial=nontrivial, classify=classify),
         driver.Part('sessions3', lambda: session(np=3), 'run', oracle, (30, 800), np=3, nontrivial=nontrivial, classify=classify)]
