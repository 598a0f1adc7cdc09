"""Reference formulas in 40-digit arithmetic, and tolerance helpers shared by the oracles."""
import math
import mpmath as mp
mp.mp.dps = 40
EPS = 2.220446049250313e-16


def M(x):
    return mp.mpf(x)


def vg(m, alpha, Sr, Pc):
    """van Genuchten: (S, dS/dP, d2S/dP2), plus magnitudes used to scale tolerances"""
    if Pc <= 0:
        return 1.0, 0.0, 0.0, (1.0, 0.0, 0.0)
    m, alpha, Sr, Pc = map(M, (m, alpha, Sr, Pc))
    n = 1 / (1 - m)
    u = (alpha * Pc) ** n
    Se = (1 + u) ** (-m)
    d = m * n * u / Pc * (1 + u) ** (-m - 1)
    base = m * n * u * (1 + u) ** (-m - 2) / Pc ** 2
    d2 = base * ((m * n + 1) * u - n + 1)
    mag2 = base * ((m * n + 1) * u + n + 1)
    f = 1 - Sr
    return float(f * Se + Sr), float(f * d), float(f * d2), (float(f * Se + Sr), float(f * d), float(f * mag2))


def gardner(n, m, alpha, Sr, Pc):
    if Pc < 0:
        return 1.0, 0.0, 0.0, (1.0, 0.0, 0.0)
    m, alpha, Sr, Pc = map(M, (m, alpha, Sr, Pc))
    Se = mp.exp(-alpha * Pc / m)
    f = 1 - Sr
    r = (float(f * Se + Sr), float(f * alpha / m * Se), float(f * (alpha / m) ** 2 * Se))
    return r + (r,)


def irmay(m, Se):
    if Se >= 1:
        return 1.0, 0.0
    m, Se = M(m), M(Se)
    return float(Se ** m), float(m * Se ** (m - 1))


def mualem_raw(m, Se):
    if Se >= 1:
        return mp.mpf(1), mp.mpf(0)
    if Se <= 0:
        return mp.mpf(0), mp.mpf(0)
    m, Se = M(m), M(Se)
    w = Se ** (1 / m)
    t = (1 - w) ** m
    kr = mp.sqrt(Se) * (1 - t) ** 2
    d = kr / (2 * Se) + 2 * Se ** (1 / m - mp.mpf('0.5')) * (1 - w) ** (m - 1) * (1 - t)
    return kr, d


def mualem(m, x1, x2, Se):
    """-> kr, dkr, (tolerance on kr, tolerance on dkr); a cubic Hermite on (x1, x2] towards (1, 0)"""
    if Se <= x1:
        kr, d = mualem_raw(m, Se)
        if Se >= 1:
            return 1.0, 0.0, (1e-14, 1e-14)
        if Se <= 0:
            return 0.0, 0.0, (1e-300, 1e-300)
        w = float(M(Se) ** (1 / M(m)))
        om = float(1 - M(Se) ** (1 / M(m)))
        t = om ** m
        e_om = 8 * EPS * (1 + w / m) / om                    # relative error of 1 - Se^(1/m)
        e_1t = (abs(m) * e_om * t + 8 * EPS * t) / max(1e-300, float(1 - (1 - M(Se) ** (1 / M(m))) ** M(m)))
        tk = float(kr) * (2 * e_1t + 40 * EPS) * 4 + 1e-300
        td = float(d) * (2 * e_1t + abs(m - 1) * e_om + (8 / m + 40) * EPS) * 4 + 1e-300
        return float(kr), float(d), (tk, td)
    f1, d1 = mualem_raw(m, x1)
    h = M(x2) - M(x1)
    s = (M(Se) - M(x1)) / h
    H00 = 2 * s ** 3 - 3 * s ** 2 + 1
    H10 = s ** 3 - 2 * s ** 2 + s
    H01 = -2 * s ** 3 + 3 * s ** 2
    kr = H00 * f1 + H10 * h * d1 + H01
    dk = (6 * s ** 2 - 6 * s) / h * f1 + (3 * s ** 2 - 4 * s + 1) * d1 + (6 * s - 6 * s ** 2) / h
    return float(kr), float(dk), None


def water_density(kind, P, T, S):
    """(rho, drho/dP, d2rho/dP2)"""
    if kind == 0:
        return 998.0, 0.0, 0.0
    if kind == 1:
        if P < 101325.0:
            return 997.16, 0.0, 0.0
        b = M(1) / 10 ** 8
        r = M('997.16') * mp.exp(b * (M(P) - 101325))
        return float(r), float(b * r), float(b * b * r)
    p, T, S = M(P) / 10 ** 6, M(T), M(S)
    c = lambda s: M(s)
    pw = lambda p: 1 + c('1e-6') * (-80 * T - c('3.3') * T ** 2 + c('0.00175') * T ** 3 + 489 * p - 2 * T * p + c('0.016') * T ** 2 * p
                                    - c('1.3e-5') * T ** 3 * p - c('0.333') * p ** 2 - c('0.002') * T * p ** 2)
    br = lambda p: pw(p) + S * (c('0.668') + c('0.44') * S + c('1e-6') * (300 * p - 2400 * p * S + T * (80 + 3 * T - 3300 * S - 13 * p + 47 * p * S)))
    # a quadratic in p: differentiate exactly by central differences
    h = M(1)
    d1 = (br(p + h) - br(p - h)) / (2 * h)
    d2 = (br(p + h) - 2 * br(p) + br(p - h)) / h ** 2
    return float(1000 * br(p)), float(1000 * d1 / 10 ** 6), float(1000 * d2 / M(10) ** 12)


def water_viscosity(kind, P, T, S):
    if kind == 0:
        return 9.94e-4, 0.0, 0.0
    T, S = M(T), M(S)
    v = M('0.1') + M('0.333') * S + (M('1.65') + M('91.9') * S ** 3) * mp.exp(
        -(M('0.42') * (S ** M('0.8') - M('0.17')) ** 2 + M('0.045')) * T ** M('0.8'))
    return float(v / 1000), 0.0, 0.0


def off(name, got, want, tol):
    """complaint or None; NaN always complains"""
    if got == want or (math.isfinite(got) and abs(got - want) <= tol):
        return None
    return '%s: got %r, expected %r (tolerance %.3g)' % (name, got, want, tol)
