"""Saturation curves against 40-digit references."""
import hypothesis.strategies as st
import gens as G, refs as R
from curves import Model, SENT
import driver
RULE = 'a case counts when at least one of its points is unsaturated (capillary pressure > 0) and S differs from 1 and Sr by more than 1e-6'
ASSUMPTIONS = ['shape parameters: van Genuchten m in [0.15,0.9], alpha in [1e-6,0.1]; Gardner m in [0.2,4], alpha in [1e-6,0.01]; Sr in [0,0.6]']


@st.composite
def strat(draw):
    pts = draw(st.lists(st.tuples(st.integers(0, 1), G.gardner_params(), G.vg_params(), G.residual(), G.capillary()), min_size=1, max_size=6))
    probe = draw(G.capillary())
    d = [draw(st.sampled_from([1e-3, 1.0, 10.0, 1e4]))]
    return {'pts': [[t, g if t == 0 else v, sr, pc] for t, g, v, sr, pc in pts], 'probe': probe, 'step': d[0]}


def run(L, c):
    m = Model(L, 'sat')
    out = {}
    n = len(c['pts'])
    for t in (0, 1):
        idx = [i for i in range(n) if c['pts'][i][0] == t]
        m.set(t, idx, [c['pts'][i][1] for i in idx])
    Sr = [p[2] for p in c['pts']]
    Pc = [p[3] for p in c['pts']]
    out['base'] = m.compute((Sr, Pc))
    out['sub'] = m.compute((Sr, Pc), list(range(n)))
    # the same curves a step further: monotonicity
    out['step'] = m.compute((Sr, [p + c['step'] for p in Pc]))
    m.free()
    return out


def oracle(c, o):
    bad = []
    for which, shift in (('base', 0), ('sub', 0), ('step', c['step'])):
        S, d1, d2 = o[which]
        for i, (t, par, Sr, Pc) in enumerate(c['pts']):
            Pc = Pc + shift
            w = R.vg(par[0], par[1], Sr, Pc) if t else R.gardner(par[0], par[1], par[2], Sr, Pc)
            lab = '%s %s %s Sr=%r Pc=%r' % (which, 'VanGenuchten' if t else 'Gardner', par, Sr, Pc)
            if not (Sr - 1e-15 <= S[i] <= 1 + 1e-15):
                bad.append(lab + ': S=%r outside [Sr,1]' % S[i])
            if not d1[i] >= 0:
                bad.append(lab + ': dS/dP=%r negative' % d1[i])
            k = 1 + (abs(R.math.log(abs(par[-1] * Pc))) if t and Pc > 0 else abs(par[-1] * Pc / par[-2]) if not t else 0) * 12
            for nm, got, want, mag in (('S', S[i], w[0], w[3][0]), ('dS/dP', d1[i], w[1], w[3][1]), ('d2S/dP2', d2[i], w[2], w[3][2])):
                m = R.off(lab + ' ' + nm, got, want, 60 * R.EPS * k * mag + 1e-290)
                if m:
                    bad.append(m)
    for i in range(len(c['pts'])):
        if o['step'][0][i] > o['base'][0][i] * (1 + 1e-13):
            bad.append('S increases with capillary pressure at point %d' % i)
    return bad


def nontrivial(c, o):
    return any(p[3] > 0 and p[2] + 1e-6 < S < 1 - 1e-6 for p, S in zip(c['pts'], o['base'][0]))


def classify(c, o):
    l = set()
    for p, S in zip(c['pts'], o['base'][0]):
        l.add(('vg' if p[0] else 'gardner') + ('-saturated' if p[3] <= 0 else '-dry' if S < p[2] + 1e-3 else '-partial'))
    return sorted(l)


PARTS = [driver.Part('curves', strat, 'run', oracle, (16000, 150000), nontrivial=nontrivial, classify=classify, recycle=5000)]
