"""Histories of curve assignments against a dictionary model: which curve governs which point."""
import hypothesis.strategies as st
import gens as G, refs as R
from curves import Model, kr_params, SENT
import driver
RULE = 'a case counts when it re-assigns some point after an earlier evaluation and then evaluates again'
ASSUMPTIONS = ['at any evaluation the two curve types own disjoint point sets (as every caller arranges)', 'indices are distinct within one assignment']


@st.composite
def strat(draw):
    kind = draw(st.sampled_from(['sat', 'kr']))
    N = draw(st.integers(2, 12))
    own = {0: [], 1: []}
    ops = []
    plan = ['set'] + draw(st.lists(st.sampled_from(['set', 'eval']), min_size=0, max_size=3)) + ['eval', 'set', 'eval']
    plan += draw(st.lists(st.sampled_from(['set', 'eval']), min_size=0, max_size=4))
    for what in plan:
        if what == 'set':
            t = draw(st.integers(0, 1))
            free = [i for i in range(N) if i not in own[1 - t]]
            pts = draw(st.permutations(free))[:draw(st.integers(0, max(1, 2 * len(free) // 3)))]
            if kind == 'sat':
                ps = [draw(G.gardner_params() if t == 0 else G.vg_params()) for _ in pts]
            else:
                ps = [draw(G.num(1.0, 6.0).map(lambda x: [x]) if t == 0 else G.mualem_params()) for _ in pts]
            own[t] = list(pts)
            ops.append(['set', t, list(pts), ps])
        else:
            full = draw(st.booleans())
            pts = list(range(N)) if full else draw(st.lists(st.integers(0, N - 1), min_size=1, max_size=2 * N))
            if kind == 'sat':
                cols = [[draw(G.residual()) for _ in pts], [draw(G.capillary()) for _ in pts]]
            else:
                cols = [[draw(G.num(0.01, 1.0)) for _ in pts]]
            ops.append(['all' if full else 'sub', pts, cols])
    return {'kind': kind, 'N': N, 'ops': ops}


def run(L, c):
    m = Model(L, c['kind'])
    out = []
    for op in c['ops']:
        if op[0] == 'set':
            ps = op[3] if c['kind'] == 'sat' else [kr_params(L, op[1], p) for p in op[3]]
            m.set(op[1], op[2], ps)
            out.append(None)
        else:
            out.append(m.compute(op[2], op[1] if op[0] == 'sub' else None))
    m.free()
    return out


def ref(kind, t, par, *a):
    if kind == 'sat':
        return (R.vg(par[0], par[1], *a) if t else R.gardner(par[0], par[1], par[2], *a))[:3]
    return (R.mualem(par[0], par[2], par[3], *a) if t else R.irmay(par[0], *a))[:2]


def oracle(c, o):
    own = {}
    bad = []
    for k, (op, got) in enumerate(zip(c['ops'], o)):
        if op[0] == 'set':
            own = {p: v for p, v in own.items() if v[0] != op[1]}
            own.update({p: (op[1], q) for p, q in zip(op[2], op[3])})
            continue
        for j, p in enumerate(op[1]):
            g = [col[j] for col in got]
            if p not in own:
                if any(x != SENT for x in g):
                    bad.append('step %d: point %d has no curve but got %r' % (k, p, g))
                continue
            w = ref(c['kind'], own[p][0], own[p][1], *[col[j] for col in op[2]])
            for x, y in zip(g, w):
                m = R.off('step %d point %d (%s type %d %s)' % (k, p, c['kind'], own[p][0], own[p][1]), x, y, 1e-5 * abs(y) + 1e-7 * (1 if c['kind'] == 'kr' else 1e-9) + 1e-290)
                if m:
                    bad.append(m)
    return bad


def nontrivial(c, o):
    ev = again = False
    types = set()
    for op in c['ops']:
        if op[0] == 'set':
            types.add(op[1]) if op[2] else None
            again = again or (ev and op[2] != [])
        else:
            if again:
                return True
            ev = True
    return False


def classify(c, o):
    n = sum(1 for op in c['ops'] if op[0] == 'set')
    return [c['kind'], 'sets=%d' % min(n, 4), 'evals=%d' % min(len(c['ops']) - n, 4)]


PARTS = [driver.Part('history', strat, 'run', oracle, (8000, 60000), nontrivial=nontrivial, classify=classify, recycle=5000),
         driver.Part('asan', strat, 'run', oracle, (1000, 10000), nontrivial=nontrivial, classify=classify, recycle=2000, variant='asan', shards=4,
                     env={'TDY_ARGV': '-malloc_debug 0'})]
