"""Output, checkpoints and restart of runs: files on disk against the steps that were accepted."""
import ctypes as C, glob, os, re
import numpy as np
import hypothesis.strategies as st
import gens as G, meshes as ME, sim as S, cases as CA, flow as F
import driver
from C14 import Ran
from h5 import H5
RULE = 'output: at least two steps were accepted and one file was written; restart: the continuation took at least one step that changed the solution'
ASSUMPTIONS = ['the nonlinear solver is replaced by a scripted one in the output parts (accepts or fails as told)',
               'labels of output times have six digits: of steps sharing a label the last one counts',
               'restart: the same number of processes before and after (any number is implied by the natural ordering of the files)']
REGFILE = 'reg'


def clean(L):
    L.call('PetscBarrier', None)
    if L.rank == 0:
        for f in os.listdir('.'):
            if f.endswith(('.h5', '.xmf', '.txt', '.regression', '.info', '.vec')):
                os.remove(f)
    L.call('PetscBarrier', None)


def natural_order(s):
    """lattice cell of each natural number"""
    return s.cell_order.tolist() if hasattr(s, 'cell_order') else list(range(s.nc))


def fresh(f):
    def run(L, c):
        clean(L)
        s = Ran(L, c)
        if s.empty:
            s.t.destroy()
            return {'_na': 'a process without cells'}
        o = f(s, c)
        s.close()
        L.call('PetscBarrier', None)
        return o
    return run


# ------------------------------------------------------------------ output and checkpoints
@st.composite
def output(draw):
    mode, disc = draw(st.sampled_from([('RICHARDS', 'MPFA_O'), ('RICHARDS', 'FV_TPF'), ('SALINITY', 'MPFA_O')]))
    c = {'mesh': draw(ME.mesh(kinds=('tensor', 'cube', 'columns') if disc == 'FV_TPF' else ('tensor', 'cube', 'columns', 'wedge'), nmax=3, cells=8)), 'mode': mode, 'disc': disc}
    if disc != 'FV_TPF' and draw(st.integers(0, 2)) == 0:
        c['perm'] = draw(st.integers(1, 10 ** 6))
    c['mat'] = draw(CA.material(kinds=('iso',)))
    c['bctype'] = 'neumann'
    c['gravity'] = draw(st.sampled_from([0.0, 9.8068]))
    c['density'] = draw(st.sampled_from([None, 1]))
    c['P'] = {'seed': draw(G.seeds), 'lo': 7e4, 'hi': 1.2e5}
    dt = draw(st.sampled_from([1.0, 0.25, 1e-3, 64.0, 1234.5, 1e5]))
    c['ops'], t = [], 0.0
    for _ in range(draw(st.integers(1, 3))):
        if draw(st.integers(0, 4)) == 0:
            c['ops'].append(['write'])
        t += dt * draw(st.sampled_from([1.0, 2.0, 3.5, 6.0, 0.5]))
        c['ops'].append(['run', t])
    if draw(st.integers(0, 2)) == 0:
        c['ops'].append(['write'])
    c['script'] = draw(st.lists(st.sampled_from([1, 1, 1, 2, 3]), max_size=12)) + [1]
    for i in [i for i, x in enumerate(c['script']) if x > 1][4:]:
        c['script'][i] = 1  # at most four cuts: the number of steps stays small
    c['format'] = draw(st.sampled_from([2, 2, 0]))
    c['outint'] = draw(st.sampled_from([0, 1, 1, 2, 3]))
    c['chk'] = draw(st.sampled_from([None, 1, 2, 3, 4]))
    c['opts'] = [('tdy_dt_init', repr(dt)), ('tdy_dt_growth_factor', repr(draw(st.sampled_from([1.0, 1.5]))))]
    if c['outint']:
        c['opts'].append(('output_timestep_interval', str(c['outint'])))
    if c['chk']:
        c['opts'].append(('enable_checkpoint', None))
        if c['chk'] != 1 or draw(st.booleans()):
            c['opts'].append(('checkpoint_timestep_interval', str(c['chk'])))
    return c


def ascii_vec(path):
    """values of a PETSc ASCII vector, all processes concatenated"""
    return [float(x) for x in open(path) if re.match(r'^\s*[-+]?[\dnif]', x)]


def observe_output(s, c):
    L, t = s.L, s.t
    nd = 1 if c['mode'] == 'RICHARDS' else 2
    U = CA.field(c['P'], s.nc)
    if nd == 2:
        U = np.stack([U, np.linspace(0.1, 0.6, s.nc)], 1)
    s.initial(U)
    s.script(c['script'], 600)
    t('TDyIOSetMode', c['format'])
    steps, k = [], 0
    for op in c['ops']:
        n0 = len(steps)
        if op[0] == 'write':
            t('TDyIOWriteVec')
            steps.append(['write', t.ti()['time'], t.ti()['istep'], L.vec_get(t.obj('soln_prev')).tolist()])
        else:
            t('TDyTimeIntegratorRunToTime', float(op[1]))
            es = s.entries()
            acc = [e for e in es[k:] if e[3] == 1]
            for j, e in enumerate(acc):
                last = j == len(acc) - 1
                steps.append(['step', t.ti()['time'] if last else e[2] + e[1], e[0] + 1, e[7].tolist(), last])
            k = len(es)
    o = {'steps': steps, 'lat': s.ownlat.tolist(), 'order': natural_order(s)}
    s.L.call('PetscBarrier', None)
    if L.rank == 0:
        h = H5(L.so)
        o['files'] = {}
        for f in sorted(os.listdir('.')):
            if f.endswith('_chk.h5'):
                d = h.read(f, ('time step',))
                o['files'][f] = None if d is None else [{k: v.tolist() for k, v in d[0].items()}, d[1]]
            elif f == 'out.h5':
                d = h.read(f)
                o['files'][f] = None if d is None else {k: v.tolist() for k, v in d[0].items()}
            elif f.endswith('.txt'):
                o['files'][f] = ascii_vec(f)
    return o


run_output0 = fresh(observe_output)


def run_output(L, c):
    o = run_output0(L, c)
    if '_na' not in o and L.rank == 0 and c['format'] == 2:
        o['xmf'] = open('out.xmf').read()
    return o


def output_oracle(c, o):
    rk = o['ranks'] if 'ranks' in o else [o]
    z = rk[0]
    g = ME.Geom(c['mesh'])
    M = S.Mat(c['mat'], g.nc)
    order = z['order']
    bad = []
    files = z['files']
    o['n'] = sum(1 for x in z['steps'] if x[0] == 'step')
    o['w'] = len(files)

    def whole(i):
        a = [np.full(g.nc, np.nan) for _ in range(2)]
        for r in rk:
            v = np.array(r['steps'][i][3]).reshape(len(r['lat']), -1)
            for d in range(v.shape[1]):
                a[d][r['lat']] = v[:, d]
        return [x[order] for x in (a if c['mode'] == 'SALINITY' else a[:1])]
    lab = lambda t: '%11.5e' % t
    out, chk = {}, {}
    since = False
    for i, x in enumerate(z['steps']):
        if x[0] == 'write':
            out[lab(x[1])] = i
            continue
        if c['outint'] and x[2] % c['outint'] == 0:
            out[lab(x[1])] = i
        if c['chk']:
            since = True
            if x[2] % c['chk'] == 0 or x[4]:
                chk[lab(x[1])] = i
    # rounding in the sum of step sizes may move a label by one digit: compare by closest label
    def match(name, labels, found):
        missing = [l for l in labels if l not in found]
        extra = [l for l in found if l not in labels]
        for l in list(missing):
            for e in list(extra):
                if abs(float(l) - float(e)) <= 2e-5 * abs(float(l)):
                    labels[e] = labels.pop(l)
                    missing.remove(l)
                    extra.remove(e)
                    break
        if missing:
            bad.append('%s for times %s not written (accepted steps: %s)' % (name, missing[:4], [(s[2], s[1]) for s in z['steps']][:8]))
        if extra:
            bad.append('%s for times %s although none was due (accepted steps: %s, output interval %s, checkpoint interval %s)'
                       % (name, extra[:4], [(s[2], s[1]) for s in z['steps']][:8], c['outint'], c['chk']))
        return [(l, labels[l]) for l in labels if l in found]

    def same(what, a, b, tol=0.0):
        a = np.asarray(a, dtype=float).reshape(-1)
        b = np.asarray(b).reshape(-1)
        if a.shape != b.shape or not (np.abs(a - b) <= tol).all():
            bad.append('%s is %s, expected %s' % (what, np.round(a, 6).tolist()[:8], np.round(b, 6).tolist()[:8]))
    # checkpoints
    found = {f[:-7]: f for f in files if f.endswith('_chk.h5')}
    for l, i in match('checkpoint', chk, found):
        d = files[found[l]]
        if d is None:
            bad.append('checkpoint %s cannot be read' % found[l])
            continue
        if d[1].get('time step') != z['steps'][i][2]:
            bad.append('checkpoint %s says time step %s, it was step %d' % (found[l], d[1].get('time step'), z['steps'][i][2]))
        same('state in checkpoint ' + found[l], d[0].get('fields/IC', []), np.stack(whole(i), 1))
    sat = lambda P: F.state(c, M, P[np.argsort(order)], g.nc)['S'][order]
    if c['format'] == 0:
        for nm in ('LiquidPressure', 'LiquidSaturation'):
            found = {f.split('_')[0]: f for f in files if f.endswith(nm + '.txt')}
            for l, i in match(nm + ' file', dict(out), found):
                w = whole(i)
                if nm[6] == 'P':
                    same('text output %s' % found[l], files[found[l]], np.stack(w, 1), 2e-5 * np.abs(np.stack(w, 1)).reshape(-1))
                else:
                    same('text output %s' % found[l], files[found[l]], sat(w[0]), 1e-4)
    else:
        d = files.get('out.h5')
        if d is None:
            return bad + ['out.h5 cannot be read']
        for nm in ('LiquidPressure', 'LiquidSaturation'):
            found = {k[12:-len(nm) - 1]: k for k in d if k.startswith('cell_fields/') and k.endswith('_' + nm)}
            for l, i in match(nm + ' in out.h5', dict(out), found):
                w = whole(i)
                same('%s in out.h5 at %s' % (nm, l), d[found[l]], w[0] if nm[6] == 'P' else sat(w[0]), 0.0 if nm[6] == 'P' else 1e-9)
            for l in found:
                if 'xmf' in z and '/cell_fields/%s_%s' % (l, nm) not in z['xmf']:
                    bad.append('out.xmf does not refer to %s' % found[l])
        # mesh (one process: cells in natural order)
        if len(rk) == 1:
            x, cells = np.array(d['geometry/vertices']), np.array(d['viz/topology/cells']).astype(int)
            nat = ME.means(c['mesh'], ME.coords(c['mesh']))[order]
            cen = np.array([x[q].mean(0) for q in cells])
            same('cell positions in out.h5', cen, nat, 1e-10 * np.abs(nat).max() + 1e-300)
        if 'xmf' in z:
            import xml.etree.ElementTree as ET
            try:
                root = ET.fromstring(z['xmf'].split(']>')[1].replace('&HeavyData;', 'out.h5'))
                refs = [e.text.strip().split(':')[1] for e in root.iter('DataItem') if e.get('Format') == 'HDF' and e.text]
                for r in refs:
                    if r.strip('/') not in d:
                        bad.append('out.xmf refers to %s, which out.h5 does not have' % r)
                for e in root.iter('DataItem'):
                    if e.get('Format') == 'HDF' and e.text:
                        dims = [int(q) for q in e.get('Dimensions').split()]
                        a = np.array(d.get(e.text.strip().split(':')[1].strip('/'), []))
                        if int(np.prod(dims)) != a.size:
                            bad.append('out.xmf gives %s the size %s, it has %d values' % (e.text.strip(), dims, a.size))
                for at in root.iter('Attribute'):           # a hyperslab selects the whole array: start 0, stride 1, count its size
                    slab = at.find('DataItem')
                    xml, hdf = slab.findall('DataItem')
                    rows = np.array([int(q) for q in xml.text.split()]).reshape(3, -1)
                    size = [int(q) for q in hdf.get('Dimensions').split()]
                    sel = [int(q) for q in (slab.get('Dimensions') or '0').split()]
                    if rows[0].any() or (rows[1] != 1).any() or rows[2].tolist() != size or sel != size:
                        bad.append('out.xmf selects %s (as %s) of the %s values of %s' % (rows.tolist(), sel, size, at.get('Name')))
                    if not hdf.text.strip().endswith('/' + at.get('Name')):
                        bad.append('out.xmf calls %s %s' % (hdf.text.strip(), at.get('Name')))
            except ET.ParseError as e:
                bad.append('out.xmf is not well-formed: %s' % e)
    return bad[:6]


def output_nt(c, o):
    return o.get('n', 0) > 1 and o.get('w', 0) > 0


def output_class(c, o):
    return [c['mode'] + '/' + c['disc'], ['ascii', '', 'hdf5'][c['format']], 'output every %s' % c['outint'], 'checkpoint every %s' % c['chk'], 'writes on demand' if ['write'] in c['ops'] else 'no writes on demand',
            'cut' if 2 in c['script'] or 3 in c['script'] else 'no cut']


# ------------------------------------------------------------------ restart
@st.composite
def restart(draw):
    mode, disc = draw(st.sampled_from([('RICHARDS', 'MPFA_O'), ('RICHARDS', 'MPFA_O'), ('RICHARDS', 'FV_TPF')]))
    c = {'mesh': draw(ME.mesh(kinds=('tensor', 'cube') if disc == 'FV_TPF' else ('tensor', 'cube', 'columns', 'wedge'), nmax=3, cells=10)), 'mode': mode, 'disc': disc}
    if disc != 'FV_TPF' and draw(st.integers(0, 2)) == 0:
        c['perm'] = draw(st.integers(1, 10 ** 6))
    c['mat'] = draw(CA.material(kinds=('iso', 'diag')))
    c['bctype'] = draw(st.sampled_from(['neumann', 'dirichlet']))
    if c['bctype'] == 'dirichlet':
        c['bc'] = draw(CA.wave((9e4, 1.2e5), 2e3))
    c['gravity'] = draw(st.sampled_from([0.0, 9.8068]))
    if draw(st.booleans()):
        c['curves'] = {'seed': draw(G.seeds)}
    c['P'] = {'seed': draw(G.seeds), 'lo': 8e4, 'hi': 1.1e5}
    c['k'] = draw(st.integers(-6, 6))
    c['n'] = [draw(st.integers(1, 3)), draw(st.integers(1, 3))]
    c['chk'] = draw(st.sampled_from([1, 1, 2, 5]))
    c['fresh'] = draw(st.sampled_from(['file', 'file', 'vector']))
    return c


OPTS = [('snes_rtol', '1e-9'), ('snes_stol', '0'), ('snes_atol', '1e-18'), ('snes_max_it', '40'), ('ksp_type', 'preonly'), ('pc_type', 'redundant'), ('tdy_dt_growth_factor', '1.0')]


def run_restart(L, c):
    clean(L)
    dt = float(2.0 ** c['k'] * 2 ** int(np.ceil(np.log2(100 * c['mesh']['size'] ** 2))))
    t1, t2 = dt * c['n'][0], dt * (c['n'][0] + c['n'][1])
    base = dict(c, opts=OPTS + [('tdy_dt_init', repr(dt))])
    s = Ran(L, dict(base, opts=base['opts'] + [('enable_checkpoint', None), ('checkpoint_timestep_interval', str(c['chk']))]))
    if s.empty:
        s.t.destroy()
        return {'_na': 'a process without cells'}
    s.initial(CA.field(c['P'], s.nc))
    s.script([0], 200)
    nat = None
    try:
        s.t('TDyTimeIntegratorRunToTime', t1)
        mid = s.L.vec_get(s.t.obj('soln_prev'))
        if c['fresh'] == 'vector':
            nat = L.vec_dup(s.t.obj('soln_prev'))
            s.t('TDyGlobalToNatural', s.t.obj('soln_prev'), nat)
            h, nat = nat, L.vec_get(nat)
            L.destroy('Vec', h)
        s.t('TDyTimeIntegratorRunToTime', t2)
    except Exception as e:
        s.close()
        return {'err': str(e)}
    es = s.entries()
    end = s.L.vec_get(s.t.obj('soln_prev'))
    o = {'steps': [[e[1], e[4]] for e in es], 'mid': mid.tolist(), 'end': end.tolist()}
    s.close()
    if any(e[4] < 0 for e in es):
        return {'err': 'a step was cut'}
    L.call('PetscBarrier', None)
    f = '%11.5e_chk.h5' % t1
    if c['fresh'] == 'file':
        o['found'] = os.path.exists(f)
        if not o['found']:
            return dict(o, dir=sorted(os.listdir('.')))
        base = dict(base, opts=base['opts'] + [('ic_file', f), ('ic_dataset', 'fields/IC')])
    s = Ran(L, base)
    if nat is not None:
        v = L.vec_dup(s.t.obj('soln_prev'))
        L.vec_set(v, nat)
        s.t('TDySetInitialCondition', v)
        L.destroy('Vec', v)
    s.script([0], 200)
    o['start'] = [L.vec_get(s.t.obj(k)).tolist() for k in ('soln', 'soln_prev')]
    try:
        s.t('TDyTimeIntegratorRunToTime', t2 - t1)
        o['end2'] = L.vec_get(s.t.obj('soln_prev')).tolist()
        o['steps2'] = [[e[1], e[4]] for e in s.entries()]
    except Exception as e:
        o['err2'] = str(e)
    s.close()
    return o


def restart_oracle(c, o):
    rk = o['ranks'] if 'ranks' in o else [o]
    o['moved'] = 0
    if any('err' in r for r in rk):
        return []
    bad = []
    for r in rk:
        if not r.get('found', True):
            bad.append('no checkpoint of the end of the run: %s' % r['dir'])
            continue
        if 'err2' in r:
            bad.append('the continuation failed although the uninterrupted run did not: %s' % r['err2'])
            continue
        if r['start'][0] != r['mid'] or r['start'][1] != r['mid']:
            bad.append('the continuation starts from %s / %s, the checkpoint holds %s' % (r['start'][0][:4], r['start'][1][:4], r['mid'][:4]))
        a, b = np.array(r['end']), np.array(r['end2'])
        n = len(r['steps']) - len(r['steps2'])
        if r['steps'][n:] != r['steps2'] and [x[0] for x in r['steps'][n:]] != [x[0] for x in r['steps2']]:
            bad.append('steps %s, continued run took %s' % (r['steps'], r['steps2']))
        if not np.allclose(a, b, rtol=1e-12, atol=0):
            bad.append('the continued run ends with %s, the uninterrupted one with %s' % (b[:4], a[:4]))
        o['moved'] = max(o['moved'], float(np.max(np.abs(a - np.array(r['mid'])), initial=0.0)))
    return bad[:4]


def restart_class(c, o):
    r = o['ranks'][0] if 'ranks' in o else o
    return [c['disc'] + '/' + c['bctype'], 'from ' + c['fresh'], 'not comparable' if 'err' in r else 'compared']


PARTS = [driver.Part('output', output, 'run_output', output_oracle, (120, 4000), nontrivial=output_nt, classify=output_class),
         driver.Part('output2', output, 'run_output', output_oracle, (40, 1000), np=2, nontrivial=output_nt, classify=output_class),
         driver.Part('output_asan2', output, 'run_output', output_oracle, (12, 300), np=2, nontrivial=output_nt, classify=output_class, variant='asan'),
         driver.Part('output3', output, 'run_output', output_oracle, (25, 500), np=3, nontrivial=output_nt, classify=output_class),
         driver.Part('restart', restart, 'run_restart', restart_oracle, (80, 2000), nontrivial=lambda c, o: o.get('moved', 0) > 0, classify=restart_class),
         driver.Part('restart2', restart, 'run_restart', restart_oracle, (25, 600), np=2, nontrivial=lambda c, o: o.get('moved', 0) > 0, classify=restart_class)]
