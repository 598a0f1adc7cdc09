"""Worker-side access to the characteristic-curve models, used by C01-C03."""
import ctypes as C
import numpy as np

NP = {('sat', 0): 3, ('sat', 1): 2, ('kr', 0): 1, ('kr', 1): 9}
PRE = {'sat': 'Saturation', 'kr': 'RelativePermeability'}
SENT = -7.25e77


class Model:
    def __init__(self, L, kind):
        self.L, self.kind, self.h = L, kind, C.c_void_p()
        L.call(PRE[kind] + 'Create', C.byref(self.h))

    def set(self, typ, points, params):
        p = np.array(points, dtype=np.int32)
        q = np.array(params, dtype=float).reshape(-1)
        assert q.size == NP[self.kind, typ] * p.size
        self.L.call(PRE[self.kind] + 'SetType', self.h, typ, len(points), p, q)
        p[:] = -1          # the library must have copied
        q[:] = np.nan

    def compute(self, cols, points=None):
        """cols: (Sr, Pc) or (Se,); returns the output columns, SENT where nothing was written"""
        cols = [np.array(c, dtype=float) for c in cols]
        n = cols[0].size
        outs = [np.full(n, SENT) for _ in range(3 if self.kind == 'sat' else 2)]
        if points is None:
            self.L.call(PRE[self.kind] + 'Compute', self.h, *cols, *outs)
        else:
            self.L.call(PRE[self.kind] + 'ComputeOnPoints', self.h, len(points), np.array(points, dtype=np.int32), *cols, *outs)
        return [o.tolist() for o in outs]

    def free(self):
        self.L.call(PRE[self.kind] + 'Destroy', self.h)


def smoothing(L, m, x0, x1, x2, dx):
    c = np.zeros(4)
    L.call('RelativePermeability_Mualem_GetSmoothingCoeffs', float(m), float(x0), float(x1), float(x2), float(dx), c)
    return c.tolist()


def kr_params(L, typ, p):
    """case parameters -> library parameter row; Mualem rows carry (m, x0, x1, x2, dx)"""
    if typ == 0:
        return [p[0]]
    return list(p[:5]) + smoothing(L, *p[:5])
