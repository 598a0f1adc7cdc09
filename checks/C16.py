"""Where a simulation gets its inputs from: program, files, options, defaults."""
import ctypes as C, os
import numpy as np
import hypothesis.strategies as st
import gens as G, meshes as ME, sim as S, cases as CA
import driver
from C14 import Ran
from h5 import H5
RULE = 'at least one cell value came from a file or an option, and the flow residual is not zero'
ASSUMPTIONS = ['files hold one value per cell in natural order; initial conditions hold all unknowns of a cell together',
               'the reference is the same simulation with every value set by the program (the setters are decided by C08, C11, C12, C13)']
NAMES = {'RICHARDS': ['phi', 'K', 'Sr'], 'TH': ['phi', 'K', 'Sr', 'kappa', 'rhos', 'cs'], 'SALINITY': ['phi', 'K', 'Sr', 'D', 'W']}
OPTION = {'phi': 'tdy_porosity', 'K': 'tdy_permability', 'Sr': 'tdy_residual_satuaration', 'kappa': 'tdy_thermal_conductivity', 'rhos': 'tdy_soil_density', 'cs': 'tdy_soil_specific_heat'}
DEFAULT = {'phi': .25, 'K': 1e-12, 'Sr': .15, 'kappa': 1.0, 'rhos': 2650.0, 'cs': 1000.0, 'W': 58.44, 'D': 1e-6}
RANGE = {'phi': (.05, .6), 'K': (1e-13, 1e-10), 'Sr': (0.0, .4), 'kappa': (.2, 5.0), 'rhos': (1500.0, 3000.0), 'cs': (500.0, 2000.0)}
SETTER = {'phi': 'Porosity', 'Sr': 'ResidualSaturation', 'rhos': 'SoilDensity', 'cs': 'SoilSpecificHeat', 'W': 'SalineMolecularWeight', 'K': 'Permeability', 'kappa': 'ThermalConductivity', 'D': 'SalineDiffusivity'}
TENSOR = ('K', 'kappa', 'D')


@st.composite
def config(draw):
    mode, disc = draw(st.sampled_from([('RICHARDS', 'MPFA_O'), ('RICHARDS', 'MPFA_O'), ('RICHARDS', 'FV_TPF'), ('TH', 'MPFA_O'), ('SALINITY', 'MPFA_O')]))
    c = {'mode': mode, 'disc': disc, 'mesh': draw(ME.mesh(kinds=('tensor', 'cube') if disc == 'FV_TPF' else ('tensor', 'columns', 'wedge', 'affine'), nmax=3, cells=12))}
    if disc != 'FV_TPF' and draw(st.booleans()):
        c['perm'] = draw(st.integers(1, 10 ** 6))
    c['src'] = {}
    for n in NAMES[mode]:
        opts = ['setter', 'default']
        if n in OPTION:
            opts += ['option', 'setter+option']
        if n in ('phi', 'K'):
            opts += ['file', 'file', 'setter+file', 'file+option']
        c['src'][n] = draw(st.sampled_from(opts))
    c['opt'] = {n: draw(G.num(*RANGE[n])) for n in OPTION if n in c['src']}
    c['set'], c['file'] = draw(G.seeds), draw(G.seeds)
    c['dataset'] = {n: draw(st.sampled_from([None, 'Field', 'x'])) for n in ('phi', 'K', 'ic')}
    c['onefile'] = draw(st.booleans())
    c['ic'] = draw(st.sampled_from([None, 'file', 'file', 'vector', 'binary', 'random']))
    c['byopt'] = draw(st.sampled_from([None, None, 'MPFA_O', 'FV_TPF', 'WY']))
    c['bctype'] = draw(st.sampled_from(['dirichlet', 'neumann']))
    if c['bctype'] == 'dirichlet':
        c['bcsrc'] = draw(st.sampled_from(['none', 'value', 'function', 'setter', 'value+setter']))
        if mode == 'TH':
            c['tbsrc'] = draw(st.sampled_from(['none', 'value', 'function', 'setter', 'value+setter']))
            c['tb'] = draw(G.num(5.0, 80.0))
    c['P'] = {'seed': draw(G.seeds), 'lo': 7e4, 'hi': 1.2e5}
    c['pb'] = draw(G.num(8e4, 1.2e5))
    c['gravity'] = draw(st.sampled_from([0.0, 9.8068]))
    return c


def values(c, nc, seed):
    M = S.Mat({'seed': seed, 'K': 'diag', 'vary': True, 'scale': 1e-12}, nc)
    return {n: getattr(M, n) for n in NAMES[c['mode']]}


def setter(s, n, a):
    """give the dycore the cell values a of property n through its spatial-function setter"""
    t, L = s.t, s.L
    if n in TENSOR:
        d = np.stack([a[:, i, i] for i in range(3)], 1)
        t('TDySetDiagonal%sFunction' % SETTER[n], L.spfun(lambda x: d[s.lookup(x)], 3, 3))
    else:
        t('TDySet%sFunction' % SETTER[n], L.spfun(lambda x: a[s.lookup(x)], 3))


def expected(c, nc):
    """the values each source order must give"""
    S1, S2 = values(c, nc, c['set']), values(c, nc, c['file'])
    out = {}
    if c.get('isofile'):        # one value per cell (known finding)
        S2['K'] = np.einsum('i,jk->ijk', S2['K'][:, 0, 0], np.eye(3))
    for n, src in c['src'].items():
        if 'setter' in src:
            out[n] = S1[n]
        elif 'file' in src:
            out[n] = S2[n]
        else:
            v = c['opt'][n] if 'option' in src else DEFAULT[n]
            out[n] = np.tile(np.eye(3) * v, (nc, 1, 1)) if n in TENSOR else np.full(nc, v)
    return S1, S2, out


def initial(c, nc):
    r = np.random.RandomState(c['file'] % 2 ** 32 ^ 77)
    U = r.uniform(7e4, 1.2e5, nc)
    return U if c['mode'] == 'RICHARDS' else np.stack([U, r.uniform(.1, .9, nc)], 1)


# the intervals of random initial states: pressure and temperature or salt concentration
RANDOM = {'RICHARDS': [(1e4, 1e6)], 'TH': [(1e4, 1e5), (15, 35)], 'SALINITY': [(1e4, 1e5), (.1, .8)]}


def nc_unknowns(c):
    return len(RANDOM[c['mode']])


class Built(S.Sim):
    def __init__(self, L, c, setters, opts, natural=None, bc=None, ref=False, tb=None):
        cc = {k: v for k, v in c.items() if k not in ('src', 'set', 'file')}
        cc['opts'] = opts + [('tdy_time_integration_method', 'TS' if c['mode'] == 'TH' else 'SNES')]
        if ref:
            cc['byopt'] = cc['meshsrc'] = None
        super().__init__(L, cc, setup=False)
        if self.empty:
            return
        t = self.t
        for n, a in setters.items():
            setter(self, n, a)
        if bc is not None:
            t('TDySetBoundaryPressureFunction', bc)
        if tb is not None:
            t('TDySetBoundaryTemperatureFunction', tb)
        t('TDyDriverInitializeTDy')
        self.dm = C.c_void_p()
        t('TDyGetDM', C.byref(self.dm))
        self.map()

    def flow(self, c):
        L, t = self.L, self.t
        nc = self.nc
        P = CA.field(c['P'], nc)
        U = P if c['mode'] == 'RICHARDS' else np.stack([P, np.random.RandomState(c['P']['seed'] % 2 ** 32 ^ 5).uniform(.1, .9, nc)], 1)
        u, r = self.gvec(U), self.gvec()
        if c['mode'] == 'TH':
            z = self.gvec(np.random.RandomState(3).uniform(-1, 1, (nc, 2)))
            L.call('TSComputeIFunction', t.obj('ts'), C.c_double(0), u, z, r, 0)
            L.destroy('Vec', z)
        else:
            t('TDySetDtimeForSNESSolver', 1000.0)
            p = self.gvec(U * 0.99)
            t('TDySetPreviousSolutionForSNESSolver', p)
            t('TDyPreSolveSNESSolver')
            L.call('SNESComputeFunction', t.obj('snes'), u, r)
            L.destroy('Vec', p)
        out = L.vec_get(r).tolist()
        t('TDyUpdateDiagnostics')
        d = C.c_void_p()
        t('TDyCreateDiagnosticVector', C.byref(d))
        t('TDyGetLiquidMass', d)
        m = L.vec_get(d).tolist()
        for v in (u, r, d):
            L.destroy('Vec', v)
        return out, m


def run(L, c):
    nc = ME.ncells(c['mesh'])
    S1, S2, want = expected(c, nc)
    # natural number k <-> lattice cell
    order = S.rng(c['perm']).permutation(nc) if c.get('perm') else np.arange(nc)
    ic = initial(c, nc)
    opts, data = [], {}
    for n, src in c['src'].items():
        if 'option' in src:
            opts.append((OPTION[n], repr(c['opt'][n])))
        if 'file' in src:
            f = 'all.h5' if c['onefile'] else n + '.h5'
            ds = c['dataset'][n] or {'phi': 'Porosity', 'K': 'Permeability'}[n]
            if n == 'K' and c.get('isofile'):
                opts += [('init_permeability_file', f)] + ([('permeability_dataset', ds)] if c['dataset'][n] else [])
                data.setdefault(f, {})[ds] = S2['K'][order, 0, 0]
            elif n == 'K':
                opts += [('init_permeability_file', f), ('anisotropic_perm', None)] + ([('permeability_dataset', ds)] if c['dataset'][n] else [])
                for i, x in enumerate('XYZ'):
                    data.setdefault(f, {})[ds + x] = S2['K'][order, i, i]
            else:
                ds += '' if c['dataset'][n] is None else 'phi'
                opts += [('init_porosity_file', f)] + ([('porosity_dataset', ds)] if c['dataset'][n] else [])
                data.setdefault(f, {})[ds] = S2['phi'][order]
    if c['ic'] == 'file':
        f = 'all.h5' if c['onefile'] else 'ic.h5'
        ds = (c['dataset']['ic'] + 'ic') if c['dataset']['ic'] else 'IC'
        opts += [('ic_file', f)] + ([('ic_dataset', ds)] if c['dataset']['ic'] else [])
        data.setdefault(f, {})[ds] = ic[order].reshape(-1)
    if c['ic'] == 'random':
        opts.append(('tdy_init_with_random_field', None))
    if c['ic'] == 'binary':
        if L.size > 1:
            return {'_na': 'the order of binary files depends on the partition'}
        open('ic.bin', 'wb').write(np.array([1211214, ic.size], dtype='>i4').tobytes() + ic[order].astype('>f8').tobytes())
        opts.append(('tdy_init_file', 'ic.bin'))
    L.call('PetscBarrier', None)
    if L.rank == 0:
        for f in os.listdir('.'):
            if f.endswith('.h5'):
                os.remove(f)
        h = H5(L.so)
        for f, d in data.items():
            h.write(f, d)
    L.call('PetscBarrier', None)
    src = c.get('bcsrc', '')
    const = lambda v: L.spfun(lambda x: np.full(len(x), v), 3)
    if 'value' in src:
        opts.append(('tdy_pressure_bc_value', repr(c['pb'] if src == 'value' else c['pb'] * 1.5)))
    if src == 'function':
        opts.append(('tdy_pressure_bc_func', 'c16_bc'))
        L.call('TDyRegisterFunction', b'c16_other', const(1.0))
        nm = C.create_string_buffer(b'c16_bc')
        L.call('TDyRegisterFunction', nm, const(c['pb']))
        nm.value = b'gone'          # the caller's buffer is the caller's
    bc = const(c['pb']) if 'setter' in src else None
    ts = c.get('tbsrc', '')
    if 'value' in ts:
        opts.append(('tdy_temperature_bc_value', repr(c['tb'] if ts == 'value' else c['tb'] + 7)))
    if ts == 'function':
        opts.append(('tdy_temperature_bc_func', 'c16_tbc'))
        L.call('TDyRegisterFunction', b'c16_tbc', const(c['tb']))
    tb = const(c['tb']) if 'setter' in ts else None
    a = Built(L, c, {n: S1[n] for n, s in c['src'].items() if 'setter' in s}, opts, bc=bc, tb=tb)
    if a.empty:
        a.t.destroy()
        return {'_na': 'a process without cells'}
    if c['ic'] == 'vector':
        g = a.gvec(ic)
        nat = L.vec_dup(g)
        a.t('TDyGlobalToNatural', g, nat)
        a.t('TDySetInitialCondition', nat)
        L.destroy('Vec', g)
        L.destroy('Vec', nat)
    o = {'lat': a.ownlat.tolist(), 'soln': [a.L.vec_get(a.t.obj('soln')).tolist()]}
    if c['ic'] != 'vector':
        o['soln'].append(L.vec_get(a.t.obj('soln_prev')).tolist())
    o['r'], o['m'] = a.flow(c)
    a.close()
    b = Built(L, c, want, [], bc=const(c['pb']) if src not in ('', 'none') else None, ref=True, tb=const(c['tb']) if ts not in ('', 'none') else None)
    o['r0'], o['m0'] = b.flow(c)
    o['lat0'] = b.ownlat.tolist()
    b.close()
    return o


def oracle(c, o):
    rk = o['ranks'] if 'ranks' in o else [o]
    nc = ME.ncells(c['mesh'])
    ic = initial(c, nc)
    bad, o['sz'] = [], 0.0
    for r in rk:
        w = ic[r['lat']].reshape(-1)
        if c['ic'] == 'random':
            U = np.array(r['soln']).reshape(-1, nc_unknowns(c))
            for i, (lo, hi) in enumerate(RANDOM[c['mode']]):
                if not ((lo <= U[:, i]) & (U[:, i] <= hi)).all() or len(w) > nc_unknowns(c) and len(set(U[:, i])) == 1:
                    bad.append('random initial values %s of unknown %d, expected different ones within %s' % (U[:, i].tolist()[:5], i, (lo, hi)))
            w = np.array(r['soln'][0])
        if c['ic'] is None:
            w = np.full(w.shape, 101325.0)
        for s in r['soln']:
            if len(s) != len(w) or (np.array(s) != w).any():
                bad.append('initial solution %s, expected %s (source: %s)' % (s[:5], w.tolist()[:5], c['ic']))
        a, b = np.array(r['r']), np.array(r['r0'])
        o['sz'] = max(o['sz'], np.abs(b).max(initial=0))
    w = 1 if c['mode'] == 'RICHARDS' else 2
    A, B = np.full((nc, w), np.nan), np.full((nc, w), np.nan)
    for r in rk:
        A[r['lat']] = np.array(r['r']).reshape(-1, w)
        B[r['lat0']] = np.array(r['r0']).reshape(-1, w)
    for d in range(w):
        x, y = A[:, d], B[:, d]
        # rounding of the single fluxes a balance is made of (differences of large pressures)
        fl = 1e-13 * 1e11 * max(3e-12, c['opt'].get('K', 0.0)) * c['mesh'].get('size', 1.0) * (1e5 if c['mode'] == 'TH' and d else 1.0)
        if not (np.abs(x - y) <= 1e-9 * np.abs(y).max(initial=0) + fl).all():
            i = int(np.argmax(np.abs(x - y)))
            bad.append('unknown %d: residual %r, with every value set by the program %r' % (d, x[i], y[i]))
    if c.get('meshsrc'):        # another natural order
        return bad
    A, B = (np.concatenate([np.array(r[k]) for r in rk]) for k in ('m', 'm0'))
    if not (np.abs(A - B) <= 1e-12 * np.abs(B)).all():
        bad.append('liquid mass %s, with every value set by the program %s' % (A.tolist()[:5], B.tolist()[:5]))
    return bad[:5]


def nontrivial(c, o):
    return o.get('sz', 1) > 0 and any('file' in s or 'option' in s for s in c['src'].values())


def classify(c, o):
    return [c['mode'] + '/' + c['disc'], 'ic ' + str(c['ic']), 'bc ' + c.get('bcsrc', 'closed'), 'boundary temperature ' + c.get('tbsrc', 'closed'), 'mode and discretization by option' if c['byopt'] else 'by setter'] + ['%s from %s' % x for x in c['src'].items()]


# ------------------------------------------------------------------ meshes from options and files
@st.composite
def meshes(draw):
    c = draw(config())
    c['meshsrc'] = draw(st.sampled_from(['options', 'file', 'file']))
    if c['meshsrc'] == 'options':
        c['mesh'] = draw(ME.mesh(kinds=('cube',), nmax=3, cells=12))
        c.pop('perm', None)
    elif c['disc'] == 'FV_TPF':
        c['mesh'] = draw(ME.mesh(kinds=('tensor', 'cube'), nmax=3, cells=12))
    c['byopt'] = draw(st.sampled_from([None, 'bare', 'bare', 'FV_TPF']))
    c['src'] = {n: draw(st.sampled_from(['setter', 'default'])) for n in c['src']}
    c['ic'] = None
    return c


# ------------------------------------------------------------------ unreadable inputs are errors
@st.composite
def missing(draw):
    c = {'mesh': draw(ME.mesh(kinds=('cube',), nmax=2, cells=4)), 'mode': 'RICHARDS', 'disc': draw(st.sampled_from(['MPFA_O', 'FV_TPF'])), 'gravity': 0.0, 'bctype': 'neumann'}
    c['what'] = draw(st.sampled_from(['phi', 'K', 'ic', 'binary']))
    c['how'] = draw(st.sampled_from(['no file', 'no dataset', 'too short', 'too long', 'not hdf5']))
    if c['what'] == 'binary':
        c['how'] = draw(st.sampled_from(['no file', 'too short', 'too long', 'a rival, the random field']))
        c['mode'] = draw(st.sampled_from(['RICHARDS', 'TH', 'SALINITY']))
        c['disc'] = c['disc'] if c['mode'] == 'RICHARDS' else 'MPFA_O'
    c['extra'] = draw(st.integers(1, 3))
    return c


def run_missing(L, c):
    nc = ME.ncells(c['mesh'])
    for f in os.listdir('.'):
        if f.endswith('.h5'):
            os.remove(f)
    n = nc + {'too short': -min(c['extra'], nc - 1) if nc > 1 else 0, 'too long': c['extra']}.get(c['how'], 0)
    if n == nc and c['how'] == 'too short':
        return {'_na': 'one cell'}
    v = np.full(n, .3)
    opts = {}
    if c['what'] == 'binary':
        v = np.full(n * nc_unknowns(c), .3)
        opts = [('tdy_init_file', 'in.bin')] + ([('tdy_init_with_random_field', None)] if 'rival' in c['how'] else [])
        if os.path.exists('in.bin'):
            os.remove('in.bin')
        if c['how'] != 'no file':
            open('in.bin', 'wb').write(np.array([1211214, v.size], dtype='>i4').tobytes() + v.astype('>f8').tobytes())
    elif c['how'] == 'not hdf5':
        open('in.h5', 'w').write('not an HDF5 file\n' * 50)
    elif c['how'] != 'no file':
        nm = {'phi': ['Porosity'], 'K': ['PermeabilityX', 'PermeabilityY', 'PermeabilityZ'], 'ic': ['IC']}[c['what']]
        H5(L.so).write('in.h5', {(x + 'z' if c['how'] == 'no dataset' else x): v for x in nm})
    opts = opts or {'phi': [('init_porosity_file', 'in.h5')], 'K': [('init_permeability_file', 'in.h5'), ('anisotropic_perm', None)], 'ic': [('ic_file', 'in.h5')]}[c['what']]
    try:
        s = Built(L, dict(c, src={}), {}, opts)
    except Exception as e:
        return {'err': str(e)[:300]}
    s.close()
    return {'err': None}


def missing_oracle(c, o):
    return [] if o['err'] else ['set-up succeeded although the %s file has %s' % (c['what'], c['how'])]


PARTS = [driver.Part('config', config, 'run', oracle, (400, 12000), nontrivial=nontrivial, classify=classify),
         driver.Part('config2', config, 'run', oracle, (100, 3000), np=2, nontrivial=nontrivial, classify=classify),
         driver.Part('config_asan2', config, 'run', oracle, (12, 300), np=2, nontrivial=nontrivial, classify=classify, variant='asan'),
         driver.Part('config3', config, 'run', oracle, (60, 2000), np=3, nontrivial=nontrivial, classify=classify),
         driver.Part('config_asan', config, 'run', oracle, (50, 1000), variant='asan', nontrivial=nontrivial, classify=classify),
         driver.Part('meshes', meshes, 'run', oracle, (60, 2000), nontrivial=lambda c, o: o.get('sz', 1) > 0, classify=lambda c, o: ['mesh from ' + c['meshsrc'], str(c['byopt'])]),
         driver.Part('meshes2', meshes, 'run', oracle, (30, 800), np=2, nontrivial=lambda c, o: o.get('sz', 1) > 0, classify=lambda c, o: ['mesh from ' + c['meshsrc'], str(c['byopt'])]),
         driver.Part('isofile', config, 'run', oracle, (0, 0)),
         driver.Part('missing', missing, 'run_missing', missing_oracle, (40, 600), handles_err=True, classify=lambda c, o: [c['what'] + ': ' + c['how']])]
