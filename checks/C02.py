"""Relative-permeability curves against 40-digit references."""
import hypothesis.strategies as st
import gens as G, refs as R
from curves import Model, kr_params
import driver
RULE = 'a case counts when at least one point has 0 < Kr < 1 (partially saturated flow)'
ASSUMPTIONS = ['effective saturation in [0, 1]', 'Mualem smoothing interval ends at full saturation (upper bound 1, as configured by default)',
               'Mualem m in [0.2,0.9], Irmay exponent in [1,8]']


@st.composite
def strat(draw):
    pts = draw(st.lists(st.tuples(st.integers(0, 1), G.num(1.0, 8.0, 1.0, 2.0), G.mualem_params(), G.eff_sat(), G.num(-1, 1)), min_size=1, max_size=6))
    return {'pts': [[t, [i] if t == 0 else mu, se if t == 0 or abs(z) > .3 else mu[2] + (1 - mu[2]) * abs(z) / .3] for t, i, mu, se, z in pts],
            'step': draw(G.logf(1e-9, 0.5))}


def run(L, c):
    m = Model(L, 'kr')
    n = len(c['pts'])
    for t in (0, 1):
        idx = [i for i in range(n) if c['pts'][i][0] == t]
        m.set(t, idx, [kr_params(L, t, c['pts'][i][1]) for i in idx])
    Se = [p[2] for p in c['pts']]
    hi = [min(1.0, s + c['step']) for s in Se]
    out = {'base': m.compute((Se,)), 'sub': m.compute((Se,), list(range(n))), 'hi': m.compute((hi,))}
    # both sides of each Mualem joint, and the upper end
    J = [(p[1][2] if p[0] else 0.5) for p in c['pts']]
    out['j-'] = m.compute((J,))
    out['j+'] = m.compute(([j * (1 + 4e-16) for j in J],))
    out['one'] = m.compute(([1.0] * n,))
    m.free()
    return out


def tol(par, se, kr, dk, t):
    if t is not None:
        return t
    x1, x2 = par[2], par[3]
    h = x2 - x1
    # the cubic is solved for in a shifted, scaled variable: conditioning grows with (range/h)^3
    r = max(1.0, max(abs(par[1] - x1), abs(1 - par[1]), par[4]) / h)
    return 4e-14 * r ** 3, 4e-13 * r ** 3 / h


def oracle(c, o):
    bad = []
    for i, (t, par, se0) in enumerate(c['pts']):
        for which, se in (('base', se0), ('sub', se0), ('hi', min(1.0, se0 + c['step']))):
            kr, dk = o[which][0][i], o[which][1][i]
            lab = '%s %s %s Se=%r' % (which, 'Mualem' if t else 'Irmay', par, se)
            if t == 0:
                w = R.irmay(par[0], se)
                tk, td = 1e-13 * w[0] + 1e-300, 1e-13 * w[1] + 1e-300
            else:
                w = R.mualem(par[0], par[2], par[3], se)
                tk, td = tol(par, se, kr, dk, w[2])
            for nm, g, ww, tt in (('Kr', kr, w[0], tk), ('dKr/dSe', dk, w[1], td)):
                m = R.off(lab + ' ' + nm, g, ww, tt)
                if m:
                    bad.append(m)
            if not -1e-13 - (tk if t else 0) <= kr <= 1 + (0.2 if t and se > par[2] else 1e-13):
                bad.append(lab + ': Kr=%r outside [0,1]' % kr)
            if se == 1.0 and abs(kr - 1) > tk + 1e-13:
                bad.append(lab + ': Kr(1)=%r' % kr)
        if t:
            tk, td = tol(par, 1.0, 0, 0, None)
            f1, d1 = R.mualem_raw(par[0], par[2])
            ws = R.mualem(par[0], par[2], par[3], par[2])[2]
            for nm, k, tt in (('Kr', 0, tk + 2 * ws[0] + 4e-16 * float(d1)), ('dKr/dSe', 1, td + 2 * ws[1] + 1e-9 * float(d1))):
                if not abs(o['j-'][k][i] - o['j+'][k][i]) <= tt:
                    bad.append('Mualem %s: %s jumps at the smoothing joint: %r -> %r' % (par, nm, o['j-'][k][i], o['j+'][k][i]))
        if not t and o['hi'][0][i] < o['base'][0][i] * (1 - 1e-13):
            bad.append('Irmay Kr decreases with saturation at point %d' % i)
        if t and se0 + c['step'] <= par[2] and o['hi'][0][i] < o['base'][0][i] * (1 - 1e-10) - 1e-280:
            bad.append('Mualem Kr decreases with saturation at point %d' % i)
    return bad


def nontrivial(c, o):
    return any(1e-12 < k < 1 - 1e-9 for k in o['base'][0])


def classify(c, o):
    l = set()
    for (t, par, se) in c['pts']:
        l.add('irmay' if t == 0 else 'mualem-smoothed' if se > par[2] else 'mualem-raw')
    return sorted(l)


PARTS = [driver.Part('curves', strat, 'run', oracle, (12000, 120000), nontrivial=nontrivial, classify=classify, recycle=5000)]
