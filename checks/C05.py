"""Mesh the finite-volume discretizations work on: connectivity, orientation, geometry, ownership, natural numbering."""
import ctypes as C
import numpy as np
import hypothesis.strategies as st
import gens as G, meshes as ME, sim as S
import driver
RULE = 'a case counts when the mesh has at least two cells'
ASSUMPTIONS = ['convex cells with vertical sides', 'areas, centroids and volumes are compared on planar-faced cells only']


@st.composite
def meshes(draw, nmax=4, cells=36):
    c = {'mesh': draw(ME.mesh(kinds=('tensor', 'affine', 'columns', 'cube', 'wedge', 'wedge', 'hex'), nmax=nmax, cells=cells)),
         'disc': draw(st.sampled_from(['MPFA_O', 'MPFA_O', 'FV_TPF'])),
         'mat': {'seed': draw(G.seeds), 'K': 'iso', 'scale': 1e-11, 'vary': False}}
    if c['disc'] == 'MPFA_O':
        c['mode'] = draw(st.sampled_from(['RICHARDS', 'RICHARDS', 'TH', 'SALINITY']))
    if draw(st.booleans()):
        c['perm'] = draw(st.integers(1, 10 ** 6))
    return c


def observe(s, c):
    L, t = s.L, s.t
    o = {'nc': t.mi('num_cells'), 'nf': t.mi('num_faces'), 'nv': t.mi('num_vertices'), 'nb': t.mi('num_boundary_faces')}
    nc, nf, nv = o['nc'], o['nf'], o['nv']
    xv = t.m('v.coordinate', 3 * nv, C.c_double).reshape(-1, 3)
    d = ((xv[:, None, :] - s.x[None]) ** 2).sum(-1)
    o['vlat'] = d.argmin(axis=1).tolist()
    o['vdist'] = float(np.sqrt(d.min(axis=1)).max())
    ml, mv = t.mesh_list, t.mesh_val
    o['cv'] = [ml('TDyMeshGetCellVertices', i).tolist() for i in range(nc)]
    o['cf'] = [ml('TDyMeshGetCellFaces', i).tolist() for i in range(nc)]
    o['ccen'] = [mv('TDyMeshGetCellCentroid', i, 3) for i in range(nc)]
    o['cvol'] = [mv('TDyMeshGetCellVolume', i)[0] for i in range(nc)]
    o['vc'] = [ml('TDyMeshGetVertexInternalCells', i).tolist() for i in range(nv)]
    o['vf'] = [ml('TDyMeshGetVertexFaces', i).tolist() for i in range(nv)]
    o['vs'] = [ml('TDyMeshGetVertexSubfaces', i).tolist() for i in range(nv)]
    o['vb'] = [ml('TDyMeshGetVertexBoundaryFaces', i).tolist() for i in range(nv)]
    so, si = t.m('v.subcell_offset', nv + 1), None
    si = t.m('v.subcell_ids', so[-1])
    o['vsub'] = [si[so[i]:so[i + 1]].tolist() for i in range(nv)]
    o['fc'] = [ml('TDyMeshGetFaceCells', i).tolist() for i in range(nf)]
    o['fv'] = [ml('TDyMeshGetFaceVertices', i).tolist() for i in range(nf)]
    o['fcen'] = [mv('TDyMeshGetFaceCentroid', i, 3) for i in range(nf)]
    o['fn'] = [mv('TDyMeshGetFaceNormal', i, 3) for i in range(nf)]
    o['fa'] = [mv('TDyMeshGetFaceArea', i)[0] for i in range(nf)]
    ns = len(o['cv'][0])
    o['sf'] = [[ml('TDyMeshGetSubcellFaces', i * ns + j).tolist() for j in range(ns)] for i in range(nc)]
    o['sa'] = [[ml('TDyMeshGetSubcellFaceAreas', i * ns + j, C.c_double).tolist() for j in range(ns)] for i in range(nc)]
    mp = C.c_void_p(L.so.shim_meshptr(t.h))
    n, a, b = C.c_int(), np.zeros(nc + 8, dtype=np.int32), np.zeros(nc + 8, dtype=np.int32)
    L.call('TDyMeshGetLocalCellNaturalIDs', mp, C.byref(n), a)
    o['nat'] = a[:n.value].tolist()
    L.call('TDyMeshGetCellIsLocal', mp, C.byref(n), b)
    o['own'] = b[:n.value].tolist()
    L.call('TDyMeshGetNumLocalCells', mp, C.byref(n))
    o['nlocal'] = n.value
    o['gid'] = t.m('c.global_id', nc).tolist()
    o['clat'] = s.lat.tolist()
    o['order'] = s.cell_order.tolist() if hasattr(s, 'cell_order') else list(range(s.nc))
    p, q = C.POINTER(C.c_int)(), C.c_int()
    t('TDyGetBoundaryFaces', C.byref(q), C.byref(p))
    f0, f1 = C.c_int(), C.c_int()
    L.call('DMPlexGetHeightStratum', s.dm, 1, C.byref(f0), C.byref(f1))
    o['lab'] = sorted(p[i] - f0.value for i in range(q.value))
    t('TDyRestoreBoundaryFaces', C.byref(q), C.byref(p))
    return o


run = S.closing(observe)


def loop_ok(vs, ref):
    """same cycle up to rotation and reflection"""
    k = len(ref)
    if sorted(vs) != sorted(ref):
        return False
    e = lambda v: {frozenset((v[i], v[(i + 1) % k])) for i in range(k)}
    return e(vs) == e(ref)


def oracle(c, obs):
    g = ME.Geom(c['mesh'])
    planar = c['mesh']['kind'] != 'hex'
    h = c['mesh']['size']
    fset = {tuple(sorted(F['v'])): k for k, F in enumerate(g.faces)}
    bad = []
    say = lambda s, *a: bad.append(s % a) if len(bad) < 8 else None
    rk = obs['ranks'] if 'ranks' in obs else [obs]
    seen, gids = np.zeros(g.nc, dtype=int), []
    for r, o in enumerate(rk):
        nc, nf, nv = o['nc'], o['nf'], o['nv']
        V, Cl = o['vlat'], o['clat']
        if o['vdist'] > 1e-9 * h or len(set(V)) != nv or len(set(Cl)) != nc:
            say('rank %d: local vertices or cells do not match the mesh one to one', r)
            continue
        local = set(Cl)
        # faces
        fl = []
        nbnd = set()
        for f in range(nf):
            vs = [V[v] for v in o['fv'][f]]
            k = fset.get(tuple(sorted(vs)))
            fl.append(k)
            if k is None or not loop_ok(vs, g.faces[k]['v']):
                say('rank %d face %d: its vertices %s are not a face of the mesh in cyclic order', r, f, vs)
                continue
            F = g.faces[k]
            cs = o['fc'][f]
            want = [x for x in F['cells'] if x in local]
            have = [Cl[x] for x in cs if x >= 0]
            if sorted(have) != sorted(want):
                say('rank %d face %s: cells %s, expected %s', r, vs, have, want)
                continue
            if len(want) == 1:
                if cs[0] >= 0 or cs[1] < 0:
                    say('rank %d face %s: a boundary face lists its cell first (%s)', r, vs, cs)
                b = -min(cs)
                if not 1 <= b <= o['nb'] or b in nbnd:
                    say('rank %d face %s: boundary index %d is out of 1..%d or used twice', r, vs, b, o['nb'])
                nbnd.add(b)
            n = np.array(o['fn'][f])
            if planar and abs(n @ n - 1) > 1e-9:
                say('rank %d face %s: normal %s has not unit length', r, vs, n)
            A = np.zeros(3)
            # vector area pointing from the first to the second cell
            inner = Cl[cs[1]] if cs[1] >= 0 else Cl[cs[0]]
            A = -g.outward(k, inner)
            if cs[1] < 0:
                A = -A
            if planar:
                if np.abs(n - A / F['area']).max() > 1e-7:
                    say('rank %d face %s: normal %s, from first to second cell it is %s', r, vs, n, A / F['area'])
                if abs(o['fa'][f] - F['area']) > 1e-8 * F['area']:
                    say('rank %d face %s: area %r, expected %r', r, vs, o['fa'][f], F['area'])
                if np.abs(np.array(o['fcen'][f]) - F['cen']).max() > 1e-8 * h:
                    say('rank %d face %s: centroid %s, expected %s', r, vs, o['fcen'][f], F['cen'])
            elif n @ A <= 0:
                say('rank %d face %s: normal %s does not point from first to second cell', r, vs, n)
        if nbnd != set(range(1, o['nb'] + 1)):
            say('rank %d: boundary indices %s are not 1..%d', r, sorted(nbnd), o['nb'])
        if None in fl:
            continue
        if len(set(fl)) != nf:
            say('rank %d: a face appears twice', r)
        finv = {k: f for f, k in enumerate(fl)}
        # cells
        for i in range(nc):
            k = Cl[i]
            if sorted(V[v] for v in o['cv'][i]) != sorted(g.cellv[k]):
                say('rank %d cell %d: vertices %s, expected %s', r, k, [V[v] for v in o['cv'][i]], g.cellv[k])
                continue
            if sorted(fl[f] for f in o['cf'][i]) != sorted(g.cellf[k]):
                say('rank %d cell %d: faces differ from the mesh', r, k)
                continue
            if planar:
                if abs(o['cvol'][i] - g.vol[k]) > 1e-8 * g.vol[k]:
                    say('rank %d cell %d: volume %r, expected %r', r, k, o['cvol'][i], g.vol[k])
                if np.abs(np.array(o['ccen'][i]) - g.cen[k]).max() > 1e-8 * h:
                    say('rank %d cell %d: centroid %s, expected %s', r, k, o['ccen'][i], g.cen[k])
            for j, sf in enumerate(o['sf'][i]):
                v = V[o['cv'][i][j]]
                want = sorted(f for f in g.cellf[k] if v in g.faces[f]['v'])
                if sorted(fl[f] for f in sf) != want:
                    say('rank %d cell %d: subcell of vertex %d has faces %s, expected %s', r, k, v, sorted(fl[f] for f in sf), want)
                elif planar:
                    for f, a in zip(sf, o['sa'][i][j]):
                        F = g.faces[fl[f]]
                        if abs(a - F['area'] / len(F['v'])) > 1e-8 * F['area']:
                            say('rank %d cell %d: sub-face area %r, expected %r', r, k, a, F['area'] / len(F['v']))
            if not 0 <= o['nat'][i] < g.nc or o['order'][o['nat'][i]] != k:
                say('rank %d cell %d: natural number %s, it was number %d of the input', r, k, o['nat'][i], o['order'].index(k))
            if o['own'][i]:
                seen[k] += 1
                gids.append(o['gid'][i])
                if any(set(g.faces[f]['cells']) - local for f in g.cellf[k]):
                    say('rank %d cell %d: a neighbour of this owned cell is not in the local mesh', r, k)
                if any(set(g.vcells[v]) - local for v in g.cellv[k]):
                    say('rank %d cell %d: a cell around a vertex of this owned cell is not in the local mesh', r, k)
                for f in g.cellf[k]:
                    if (finv[f] in o['lab']) != (len(g.faces[f]['cells']) == 1):
                        say('rank %d cell %d: face %s has label %d, it has %d cells in the whole mesh', r, k, g.faces[f]['v'], finv[f] in o['lab'], len(g.faces[f]['cells']))
        if o['lab'] and not 0 <= o['lab'][0] <= o['lab'][-1] < nf:
            say('rank %d: the boundary faces include things that are not faces', r)
        if o['nlocal'] != sum(o['own']):
            say('rank %d: %d local cells counted, %d flagged', r, o['nlocal'], sum(o['own']))
        # vertices
        for v in range(nv):
            k = V[v]
            cs = sorted(x for x in g.vcells[k] if x in local)
            if sorted(Cl[x] for x in o['vc'][v]) != cs:
                say('rank %d vertex %d: cells %s, expected %s', r, k, sorted(Cl[x] for x in o['vc'][v]), cs)
                continue
            for x, j in zip(o['vc'][v], o['vsub'][v]):
                if o['cv'][x][j] != v:
                    say('rank %d vertex %d: sub-cell number %d of cell %d belongs to another vertex', r, k, j, Cl[x])
            fs = sorted(f for f in g.vfaces[k] if f in finv)
            if sorted(fl[x] for x in o['vf'][v]) != fs:
                say('rank %d vertex %d: faces %s, expected %s', r, k, sorted(fl[x] for x in o['vf'][v]), fs)
                continue
            nint = [min(o['fc'][f]) >= 0 for f in o['vf'][v]]
            if nint != sorted(nint, reverse=True):
                say('rank %d vertex %d: interior faces do not come first', r, k)
            if sorted(o['vb'][v]) != sorted(f for f, q in zip(o['vf'][v], nint) if not q):
                say('rank %d vertex %d: boundary faces %s', r, k, o['vb'][v])
            for f, q in zip(o['vf'][v], o['vs'][v]):
                if not 0 <= q < len(o['fv'][f]) or o['fv'][f][q] != v:
                    say('rank %d vertex %d: sub-face number %d of face %s belongs to another vertex', r, k, q, [V[y] for y in o['fv'][f]])
    if not bad and (seen != 1).any():
        say('owned cells do not partition the mesh: %s', seen.tolist())
    w = 1 if c.get('mode', 'RICHARDS') == 'RICHARDS' else 2        # a cell's number is the row of its first unknown
    if not bad and sorted(gids) != list(range(0, w * g.nc, w)):
        say('global numbers of owned cells are %s', sorted(gids))
    return bad


def nontrivial(c, o):
    return ME.ncells(c['mesh']) > 1


def classify(c, o):
    n = c['mesh']['n']
    return [c['mesh']['kind'], c['disc'], 'perm' if c.get('perm') else 'box', 'thin' if min(n) == 1 else 'block']


PARTS = [driver.Part('mesh', meshes, 'run', oracle, (250, 6000), nontrivial=nontrivial, classify=classify),
         driver.Part('mesh_asan', meshes, 'run', oracle, (40, 800), variant='asan', nontrivial=nontrivial, classify=classify),
         driver.Part('mesh2', meshes, 'run', oracle, (60, 1500), np=2, nontrivial=nontrivial, classify=classify),
         driver.Part('mesh3', meshes, 'run', oracle, (30, 1000), np=3, nontrivial=nontrivial, classify=classify),
         driver.Part('mesh5', meshes, 'run', oracle, (0, 400), np=5, nontrivial=nontrivial, classify=classify)]
