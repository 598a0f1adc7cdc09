"""Wheeler-Yotov method: the unsaturated (transient) residual."""
import ctypes as C
import numpy as np
import hypothesis.strategies as st
import gens as G, refs as R, sim as S, cases as CA, flow as F, fe
import driver
RULE = 'at least two cells, relative permeabilities that differ, and a residual that is not zero'
ASSUMPTIONS = ['pressures keep every relative permeability above 1e-9 (the method inverts the permeability)',
               'the flow law is the volumetric one of the steady method (no gravity, no density or viscosity): the mobility is the permeability times the relative permeability of the cell']


@st.composite
def case(draw):
    c = {'mesh': draw(fe.mesh(cells=12)), 'mat': draw(CA.material(scale=(1.0, 1e-3, 1e-12)))}
    if draw(st.integers(0, 3)):
        c['bc'] = draw(CA.wave((8e4, 1.1e5), 1e4))
    if draw(st.booleans()):
        c['forcing'] = draw(CA.wave((-1.0, 1.0), 1.0))
    if draw(st.booleans()):
        c['perm'] = draw(st.integers(1, 10 ** 6))
    if draw(st.booleans()):
        c['Sr'] = True
    if draw(st.booleans()):
        c['curves'] = {'seed': draw(G.seeds)}
    elif draw(st.booleans()):
        c['vg'] = draw(CA.vg())
    c['steps'] = draw(st.lists(st.fixed_dictionaries({'seed': G.seeds, 'lo': st.sampled_from([9.7e4, 1.0e5]), 'hi': st.sampled_from([1.01e5, 1.1e5]), 'w': st.sampled_from([0.0, 1.0, 1e4]), 'sys': st.booleans()}), min_size=1, max_size=3))
    return c


def state(p, nc):
    P = CA.field(p, nc)
    return P, np.random.RandomState((p['seed'] + 1) % 2 ** 32).uniform(-1, 1, nc) * p['w']


def run(L, c):
    s = fe.FE(L, c, 4)
    if s.empty:
        s.close()
        return {'_na': 'a process without cells'}
    if c.get('curves'):
        s.set_curves(c['curves'])
    h = s.ts()
    o = {'r': []}
    for p in c['steps']:
        if p['sys']:
            s.system('TDyWYComputeSystem')
        o['r'].append(s.ifunction(h, *state(p, s.nc)))
    L.destroy('TS', h)
    s.close()
    return o


def oracle(c, o):
    g = fe.Lattice(c['mesh'])
    nc = g.nc
    M = S.Mat(c['mat'], nc)
    K = fe.tensors(c['mat'], nc, g.d)
    Sr = M.Sr if c.get('Sr') else np.zeros(nc)
    bc = fe.fun(c['bc'], c['mesh']) if c.get('bc') else None
    f = fe.fun(c['forcing'], c['mesh']) if c.get('forcing') else None
    cv = F.curves_of(c, nc)
    vol = fe.volumes(g)
    rk = o['ranks'] if 'ranks' in o else [o]
    bad = []
    for k, p in enumerate(c['steps']):
        P, W = state(p, nc)
        kr, dS = np.zeros(nc), np.zeros(nc)
        for i in range(nc):
            kr[i] = F.sat_kr(cv[i], Sr[i], float(P[i]))[1]
            sp = cv[i][1]
            dS[i] = (R.vg(sp[0], sp[1], Sr[i], F.PREF - P[i]) if cv[i][0] else R.gardner(sp[0], sp[1], sp[2], Sr[i], F.PREF - P[i]))[1]
        if kr.min() < 1e-9:
            continue
        A, b = fe.wy(g, K * kr[:, None, None], bc, f)
        acc = M.phi * dS * W * vol
        ref = A @ P - b + acc
        pb = max([abs(bc(x[None])[0]) for x in g.fcen]) if bc else 0.0
        tol = 1e-8 * (np.abs(A) @ np.abs(P) + np.abs(b) + np.abs(acc) + (abs(c['forcing']['a'][4]) * vol if f else 0.0)) + 1e-10 * np.abs(A).max(1) * (pb + np.abs(P).max())
        r = dict(x for q in rk for x in q['r'][k])
        if sorted(r) != list(range(nc)):
            return ['cells owned by the processes: %s' % sorted(r)]
        r = np.array([r[i] for i in range(nc)])
        for i in np.nonzero(~(np.abs(r - ref) <= tol))[0][:3]:
            bad.append('evaluation %d, cell %d: residual %r, reference %r (storage %r)' % (k, i, r[i], ref[i], acc[i]))
    return bad


def usable(c):
    nc = int(np.prod(c['mesh']['n']))
    M = S.Mat(c['mat'], nc)
    Sr = M.Sr if c.get('Sr') else np.zeros(nc)
    cv = F.curves_of(c, nc)
    return [[F.sat_kr(cv[i], Sr[i], float(x))[1] for i, x in enumerate(state(p, nc)[0])] for p in c['steps']]


def nontrivial(c, o):
    kr = usable(c)
    return int(np.prod(c['mesh']['n'])) > 1 and any(min(k) >= 1e-9 and max(k) > min(k) for k in kr)


def classify(c, o):
    return ['%dD' % len(c['mesh']['n']), c['mesh']['kind'], c['mat']['K'] + (' varying' if c['mat']['vary'] else ' constant')] + [k for k in ('bc', 'forcing', 'curves', 'Sr', 'perm') if c.get(k)] + \
        (['several evaluations'] if len(c['steps']) > 1 else []) + (['permeability too small'] if any(min(k) < 1e-9 for k in usable(c)) else [])


PARTS = [driver.Part('res', case, 'run', oracle, (200, 6000), nontrivial=nontrivial, classify=classify),
         driver.Part('res_asan', case, 'run', oracle, (25, 800), variant='asan', nontrivial=nontrivial, classify=classify),
         driver.Part('res2', case, 'run', oracle, (50, 1500), np=2, nontrivial=nontrivial, classify=classify),
         driver.Part('res_asan2', case, 'run', oracle, (12, 300), np=2, nontrivial=nontrivial, classify=classify, variant='asan'),
         driver.Part('res3', case, 'run', oracle, (30, 800), np=3, nontrivial=nontrivial, classify=classify)]
