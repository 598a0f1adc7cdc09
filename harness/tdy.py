"""ctypes binding used inside worker processes.  One module-level instance per process."""
import ctypes as C
import os
import numpy as np

PETSC = os.environ.get('PETSC_DIR', '/opt/petsc-3.17.3')
c_int, c_double, c_void_p, c_char_p, POINTER, byref = C.c_int, C.c_double, C.c_void_p, C.c_char_p, C.POINTER, C.byref
SPFUN = C.CFUNCTYPE(None, c_int, POINTER(c_double), POINTER(c_double))
SPIFUN = C.CFUNCTYPE(None, c_int, POINTER(c_double), POINTER(c_int))
CTXFUN = C.CFUNCTYPE(c_int, c_void_p, c_int, POINTER(c_double), POINTER(c_double))
VOIDFUN = C.CFUNCTYPE(None)


class TDyError(Exception):
    def __init__(self, fn, code, msg):
        super().__init__('%s -> %d: %s' % (fn, code, msg))
        self.fn, self.code, self.msg = fn, code, msg


MODES = {'RICHARDS': 0, 'TH': 1, 'SALINITY': 2}
DISC = {'MPFA_O': 0, 'MPFA_O_DAE': 1, 'MPFA_O_TRANSIENTVAR': 2, 'BDM': 3, 'WY': 4, 'FV_TPF': 5}


def _mpi_global():
    # libpetsc pulls in libmpi; OpenMPI's plugins need its symbols to be global
    C.CDLL('libmpi.so.40', mode=C.RTLD_GLOBAL)


class Lib:
    def __init__(self, so):
        _mpi_global()
        self.petsc = C.CDLL(os.path.join(PETSC, 'lib', 'libpetsc.so'), mode=C.RTLD_GLOBAL)
        self.so = C.CDLL(so)
        self.so.shim_comm.restype = c_void_p
        self.so.shim_eos_ptr.restype = c_void_p
        self.so.shim_meshptr.restype = c_void_p
        self.keep = []          # callbacks and arrays that must outlive calls
        self.inited = False

    # -- calls
    def fn(self, name):
        try:
            return getattr(self.so, name)
        except AttributeError:
            return getattr(self.petsc, name)

    def has(self, name):
        return hasattr(self.so, name)

    def call(self, name, *args):
        f = self.fn(name)
        f.restype = c_int
        self.so.shim_clear_error()
        rc = f(*[_arg(a) for a in args])
        if rc != 0:
            buf = C.create_string_buffer(4096)
            self.so.shim_last_error(buf, 4096)
            raise TDyError(name, rc, buf.value.decode(errors='replace'))
        return rc

    def rc(self, name, *args):
        """call, returning the error code instead of raising"""
        try:
            self.call(name, *args)
            return 0
        except TDyError as e:
            return e.code

    def init(self, argv=('tdyh',)):
        argv = [a.encode() for a in argv]
        arr = (c_char_p * (len(argv) + 1))(*argv, None)
        self.keep.append(arr)
        self.call('TDyInit', c_int(len(argv)), arr)
        self.so.shim_push_handler()
        self.so.shim_sig_off()
        self.inited = True
        r, s = c_int(), c_int()
        self.so.shim_rank(byref(r), byref(s))
        self.rank, self.size = r.value, s.value

    # -- options database
    def options(self, opts):
        self.call('PetscOptionsClear', None)
        for k, v in opts:
            self.call('PetscOptionsSetValue', None, ('-' + k).encode(), None if v is None else str(v).encode())

    # -- vectors
    def vec_get(self, v):
        v = _h(v)
        n = c_int()
        self.call('VecGetLocalSize', v, byref(n))
        p = POINTER(c_double)()
        self.call('VecGetArrayRead', v, byref(p))
        a = np.array(np.ctypeslib.as_array(p, (n.value,))) if n.value else np.zeros(0)
        self.call('VecRestoreArrayRead', v, byref(p))
        return a

    def vec_set(self, v, a):
        v = _h(v)
        n = c_int()
        self.call('VecGetLocalSize', v, byref(n))
        a = np.asarray(a, dtype=float)
        assert a.size == n.value, (a.size, n.value)
        p = POINTER(c_double)()
        self.call('VecGetArray', v, byref(p))
        if n.value:
            np.ctypeslib.as_array(p, (n.value,))[:] = a
        self.call('VecRestoreArray', v, byref(p))

    def vec_dup(self, v):
        o = c_void_p()
        self.call('VecDuplicate', _h(v), byref(o))
        return o

    def vec_range(self, v):
        a, b = c_int(), c_int()
        self.call('VecGetOwnershipRange', _h(v), byref(a), byref(b))
        return a.value, b.value

    def mat_dense(self, m):
        o = (c_int * 4)()
        self.call('shim_mat_info', _h(m), o)
        out = np.zeros((o[3] - o[2], o[1]))
        self.call('shim_mat_dense', _h(m), out.ctypes.data_as(POINTER(c_double)))
        return out

    def destroy(self, kind, h):
        self.call(kind + 'Destroy', byref(h))

    # -- spatial functions from python callables f(x[n,dim]) -> array
    def spfun(self, f, dim, width=1):
        def cb(n, x, out):
            xs = np.ctypeslib.as_array(x, (n, dim))
            o = np.ctypeslib.as_array(out, (n * width,))
            try:
                o[:] = np.asarray(f(xs), dtype=float).reshape(-1)
            except Exception as e:      # surfaces as NaN in the observation
                self.cb_error = repr(e)
                o[:] = np.nan
        c = SPFUN(cb)
        self.keep.append(c)
        return c

    def spifun(self, f, dim):
        def cb(n, x, out):
            xs = np.ctypeslib.as_array(x, (n, dim))
            np.ctypeslib.as_array(out, (n,))[:] = np.asarray(f(xs), dtype=np.int32).reshape(-1)
        c = SPIFUN(cb)
        self.keep.append(c)
        return c

    def ctxfun(self, f, dim, width=1):
        def cb(ctx, n, x, out):
            xs = np.ctypeslib.as_array(x, (n, dim))
            np.ctypeslib.as_array(out, (n * width,))[:] = np.asarray(f(xs), dtype=float).reshape(-1)
            return 0
        c = CTXFUN(cb)
        self.keep.append(c)
        return c

    # -- meshes
    def mesh_box(self, n, coords=None, simplex=False):
        dim = len(n)
        self.keep.append(('mesh', n))
        nn = (c_int * dim)(*n)
        cp = None
        if coords is not None:
            c = np.ascontiguousarray(coords, dtype=float).reshape(-1, dim)
            assert c.shape[0] == int(np.prod([k + 1 for k in n]))
            self.keep.append(c)
            cp = c.ctypes.data_as(POINTER(c_double))
        self.so.shim_set_mesh_box(c_int(dim), nn, c_int(1 if simplex else 0), cp)

    def mesh_cells(self, cells, coords):
        cells = np.ascontiguousarray(cells, dtype=np.int32)
        coords = np.ascontiguousarray(coords, dtype=float)
        self.keep += [cells, coords]
        self.so.shim_set_mesh_cells(c_int(coords.shape[1]), c_int(cells.shape[0]), c_int(cells.shape[1]),
                                    cells.ctypes.data_as(POINTER(c_int)), c_int(coords.shape[0]),
                                    coords.ctypes.data_as(POINTER(c_double)))

    # -- allocation
    def new(self, comm=1):
        t = c_void_p()
        self.call('TDyCreate', c_void_p(self.so.shim_comm(c_int(comm))), byref(t))
        return T(self, t)


class T:
    """one dycore"""

    def __init__(self, L, h):
        self.L, self.h = L, h
        self._m = {}

    def __call__(self, name, *args):
        return self.L.call(name, self.h, *args)

    def rc(self, name, *args):
        return self.L.rc(name, self.h, *args)

    def destroy(self):
        if self.h:
            self.L.call('TDyDestroy', byref(self.h))
            self.h = None

    def use_mesh(self):
        self.L.call('shim_use_ctor', self.h)

    def ptr(self, table, name):
        o = c_void_p()
        rc = getattr(self.L.so, 'shim_' + table)(self.h, name.encode(), byref(o))
        if rc:
            raise KeyError(name)
        return o

    def obj(self, name):
        return self.ptr('tdy', name)

    def _arr(self, p, n, ty=c_double):
        if not p or not p.value or n == 0:
            return None if (not p or not p.value) else np.zeros(0)
        return np.array(np.ctypeslib.as_array(C.cast(p, POINTER(ty)), (int(n),)))

    def ctx(self, name, n, ty=c_double):
        return self._arr(self.ptr('ctx', name), n, ty)

    def ctx_view(self, name, n, ty=c_double):
        p = self.ptr('ctx', name)
        return np.ctypeslib.as_array(C.cast(p, POINTER(ty)), (int(n),))

    def m(self, name, n, ty=c_int):
        return self._arr(self.ptr('mesh', name), n, ty)

    def mi(self, name):
        return int(self.m(name, 1)[0])

    def mesh_list(self, fn, i, ty=c_int, width=1):
        """TDyMeshGet*(mesh, i, &pointer, &count) as an array"""
        p, n = c_void_p(), c_int()
        self.L.call(fn, c_void_p(self.L.so.shim_meshptr(self.h)), int(i), byref(p), byref(n))
        if n.value < 0:
            raise RuntimeError('%s(%d) reports %d entries' % (fn, i, n.value))
        return self._arr(p, n.value * width, ty)

    def mesh_val(self, fn, i, k=1):
        """TDyMeshGet*(mesh, i, &value) with k doubles"""
        o = (c_double * k)()
        self.L.call(fn, c_void_p(self.L.so.shim_meshptr(self.h)), int(i), o)
        return list(o)

    def cc(self, kind, typ):
        n, p, q = c_int(), POINTER(c_int)(), POINTER(c_double)()
        if self.L.so.shim_cc(self.h, c_int(kind), c_int(typ), byref(n), byref(p), byref(q)):
            return None
        npar = [[3, 2], [1, 9]][kind][typ]
        k = n.value
        if k == 0:
            return [], np.zeros((0, npar))
        return [p[i] for i in range(k)], np.array([q[i] for i in range(k * npar)]).reshape(k, npar)

    def opt(self, name):
        d = c_double(np.nan)
        s = C.create_string_buffer(4096)
        if self.L.so.shim_opt(self.h, name.encode(), byref(d), s, c_int(4096)):
            raise KeyError(name)
        return s.value.decode() if name.endswith('_file') and name != 'init_from_file' else d.value

    def ti(self):
        o = (c_double * 10)()
        if self.L.so.shim_ti_get(self.h, o):
            return None
        ks = ['dt_init', 'dt_max', 'dt_reduction_factor', 'dt_growth_factor', 'dt', 'dt_save', 'time', 'final_time', 'istep', 'method']
        return dict(zip(ks, list(o)))


def _h(v):
    return v


def _arg(a):
    if isinstance(a, bool):
        return c_int(int(a))
    if isinstance(a, (int, np.integer)):
        return c_int(int(a))
    if isinstance(a, (float, np.floating)):
        return c_double(float(a))
    if isinstance(a, str):
        return c_char_p(a.encode())
    if isinstance(a, np.ndarray):
        if a.dtype == np.float64:
            return a.ctypes.data_as(POINTER(c_double))
        if a.dtype == np.int32:
            return a.ctypes.data_as(POINTER(c_int))
        raise TypeError(a.dtype)
    return a
