"""Fluid equations of state."""
import ctypes as C
import hypothesis.strategies as st
import gens as G, refs as R
import driver
RULE = 'a case counts when some point uses a pressure-, temperature- or salinity-dependent law inside its varying range'
ASSUMPTIONS = ['P in [0, 1e9] Pa, T in [0, 350] C, brine mass fraction in [0, 0.35]']
SENT = -3.5e66


@st.composite
def strat(draw):
    return {'pts': draw(st.lists(st.tuples(
        st.sampled_from(['rho', 'rho', 'mu', 'h', 'frac']), st.integers(0, 2), st.one_of(G.num(0, 1e8, 101325.0, 101324.0, 0.0), G.logf(1, 1e9)),
        G.num(0, 350, 0.0, 20.0, 25.0), G.num(0, 0.35, 0.0), G.num(0, 6.0, 0.0), G.num(1, 100, 58.44)).map(list), min_size=1, max_size=8))}


def run(L, c):
    out = []
    for what, k, P, T, S, psi, mw in c['pts']:
        o = [C.c_double(SENT) for _ in range(3)]
        if what == 'rho':
            L.call('EOSComputeWaterDensity', C.c_void_p(L.so.shim_eos_ptr(k, 0, 0)), P, T, S, *[C.byref(x) for x in o])
        elif what == 'mu':
            L.call('EOSComputeWaterViscosity', C.c_void_p(L.so.shim_eos_ptr(0, min(k, 1), 0)), P, T, S, *[C.byref(x) for x in o])
        elif what == 'h':
            L.call('EOSComputeWaterEnthalpy', C.c_void_p(L.so.shim_eos_ptr(0, 0, 0)), T, P, *[C.byref(x) for x in o])
        else:
            L.call('EOSComputeSalinityFraction', C.c_void_p(L.so.shim_eos_ptr(0, 0, 0)), psi, mw, 998.0, C.byref(o[0]))
        out.append([x.value for x in o])
    return out


def oracle(c, o):
    bad = []
    for (what, k, P, T, S, psi, mw), g in zip(c['pts'], o):
        lab = '%s law %d at P=%r T=%r S=%r psi=%r mw=%r' % (what, k, P, T, S, psi, mw)
        if what == 'rho':
            w = R.water_density(k, P, T, S)
            mags = [abs(w[0]) + 1000 * (1e-6 * (0.333 * (P / 1e6) ** 2 + 0.00175 * T ** 3)) if k == 2 else w[0], abs(w[1]) + (1e-6 if k == 2 else 0), abs(w[2]) + (1e-17 if k == 2 else 0)]
            if k == 1 and not (g[0] > 0 and g[1] >= 0):
                bad.append(lab + ': non-positive density or negative compressibility')
        elif what == 'mu':
            w = R.water_viscosity(min(k, 1), P, T, S)
            mags = [w[0], 0, 0]
            if not g[0] > 0:
                bad.append(lab + ': non-positive viscosity')
        elif what == 'h':
            w, mags = (1.889, 0.0, 0.0), (1, 0, 0)
        else:
            w = (psi * mw / (psi * mw + 999.0), SENT, SENT)
            mags = (1, 0, 0)
            if not 0 <= g[0] < 1:
                bad.append(lab + ': fraction outside [0,1)')
        for nm, x, y, m in zip(('value', 'd/dP', 'd2/dP2'), g, w, mags):
            b = R.off(lab + ' ' + nm, x, y, 1e-12 * m)
            if b:
                bad.append(b)
    return bad


def nontrivial(c, o):
    return any((w == 'rho' and (k == 2 or k == 1 and P > 101325)) or (w == 'mu' and k) or (w == 'frac' and psi > 0) for w, k, P, T, S, psi, mw in c['pts'])


def classify(c, o):
    return sorted({'%s%d' % (w, k if w == 'rho' else min(k, 1) if w == 'mu' else 0) for w, k, *_ in c['pts']})


PARTS = [driver.Part('laws', strat, 'run', oracle, (12000, 120000), nontrivial=nontrivial, classify=classify, recycle=5000)]
