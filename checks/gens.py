"""Hypothesis strategies shared by the checks."""
import hypothesis.strategies as st


def logf(lo, hi):
    """log-uniform float in [lo, hi]"""
    import math
    return st.floats(math.log(lo), math.log(hi)).map(lambda x: float(min(hi, max(lo, math.exp(x)))))


def num(lo, hi, *special):
    s = st.floats(lo, hi, allow_nan=False)
    return st.one_of(s, st.sampled_from([float(x) for x in special])) if special else s


seeds = st.integers(0, 2 ** 31 - 1)


def vg_params():
    return st.tuples(num(0.15, 0.9, 0.5, 0.8, 0.2), logf(1e-6, 1e-1)).map(list)


def gardner_params():
    return st.tuples(num(0.5, 6.0, 3.0), num(0.2, 4.0, 0.8, 1.0), logf(1e-6, 1e-2)).map(list)


def residual():
    return num(0.0, 0.6, 0.0, 0.1, 0.15)


def capillary():
    # pressures below 1e-6 Pa are rounded to zero: squares of still smaller ones underflow
    return st.one_of(num(-2e5, 2e6), logf(1e-3, 1e8), st.sampled_from([0.0, -0.0, -1.0, 1e-6, 101325.0, -1e7])).map(
        lambda x: x if abs(x) >= 1e-6 else 0.0)


@st.composite
def mualem_params(draw):
    """(m, x0, x1, x2, dx): the smoothing interval is (x1, x2=1]; x0/dx only shift and scale the cubic's variable"""
    m = draw(num(0.2, 0.9, 0.5, 0.8))
    x1 = draw(num(0.8, 0.999, 0.995, 0.99))
    x0 = draw(st.sampled_from([0.0, x1, 0.995]))
    dx = draw(st.sampled_from([0.005, 0.01, 1 - x1, 0.1]))
    return [m, x0, x1, 1.0, dx]


def eff_sat():
    return st.one_of(num(1e-3, 1.0, 1.0), num(0.99, 1.0), logf(1e-6, 1.0), st.sampled_from([0.995, 0.9999999, 1.0, 0.0]))
