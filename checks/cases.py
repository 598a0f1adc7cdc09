"""Strategies for simulation cases."""
import numpy as np
import hypothesis.strategies as st
import gens as G, meshes as ME


@st.composite
def material(draw, kinds=('iso', 'diag', 'full'), vary=(True, True, False), scale=(1e-11, 1e-13, 1e-9)):
    return {'seed': draw(G.seeds), 'K': draw(st.sampled_from(kinds)), 'vary': draw(st.sampled_from(vary)), 'scale': draw(st.sampled_from(scale))}


@st.composite
def wave(draw, base, spread):
    """boundary function [c0, cx, cy, cz, s]"""
    return {'a': [draw(G.num(*base)), draw(G.num(-spread, spread, 0.0)), draw(G.num(-spread, spread, 0.0)), draw(G.num(-spread, spread, 0.0)), draw(G.num(-spread, spread, 0.0))]}


@st.composite
def pressure(draw):
    """spread of the generated pressures"""
    lo, hi = draw(st.sampled_from([(5e4, 1.0e5), (9e4, 1.1e5), (1.05e5, 2e5), (-2e5, 1.5e5), (1.0e5, 1.02e5)]))
    return {'seed': draw(G.seeds), 'lo': lo, 'hi': hi}


def vg():
    """van Genuchten's m and alpha"""
    return st.tuples(G.num(0.2, 0.9, 0.5, 0.7), G.logf(1e-6, 1e-3)).map(list)


def field(p, nc):
    return np.random.RandomState(p['seed'] % 2 ** 32).uniform(p['lo'], p['hi'], nc)


@st.composite
def richards(draw, kinds=('tensor', 'affine', 'columns', 'wedge'), nmax=3, cells=18, gravity=False, bcs=('dirichlet', 'neumann', 'seepage', 'nofun'), mix=True,
             density=(None, 0, 1, 2), visc=(None, 1), perm=True, kinds_K=('iso', 'diag', 'full')):
    m = draw(ME.mesh(kinds=kinds, nmax=nmax, cells=cells))
    b = draw(st.sampled_from(bcs))
    c = {'mesh': m, 'mat': draw(material(kinds=kinds_K)), 'P': draw(pressure()), 'Pprev': draw(pressure()), 'dt': draw(G.logf(1e-2, 1e6))}
    if gravity is False:
        c['gravity'] = 0.0
    elif gravity is not True:
        c['gravity'] = draw(st.sampled_from(gravity))
    c['density'], c['visc'] = draw(st.sampled_from(density)), draw(st.sampled_from(visc))
    c['bctype'] = {'nofun': 'dirichlet'}.get(b, b)
    if b in ('dirichlet', 'seepage'):
        sp = 2e4 / m['size']
        c['bc'] = draw(wave((9e4, 1.2e5), sp))
    if mix and draw(st.booleans()):
        c['curves'] = {'seed': draw(G.seeds)}
    elif mix and draw(st.booleans()):
        c['vg'] = draw(vg())
    if perm and draw(st.integers(0, 2)) == 0:
        c['perm'] = draw(st.integers(1, 10 ** 6))
    return c
