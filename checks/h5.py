"""HDF5 files through the HDF5 C library itself (no PETSc in between)."""
import ctypes as C
import numpy as np

I64 = C.c_int64


class H5:
    def __init__(self, so):
        self.so = so
        so.H5open()
        for f in ('H5Fopen', 'H5Fcreate', 'H5Dopen2', 'H5Dcreate2', 'H5Dget_space', 'H5Screate_simple', 'H5Gopen2', 'H5Gcreate2', 'H5Aopen', 'H5Aopen_by_name'):
            getattr(so, f).restype = I64
        so.H5Gget_objname_by_idx.restype = C.c_ssize_t
        self.dbl = I64.in_dll(so, 'H5T_NATIVE_DOUBLE_g')
        self.int = I64.in_dll(so, 'H5T_NATIVE_INT_g')
        so.H5Eset_auto2(I64(0), None, None)

    def write(self, path, data):
        so = self.so
        f = so.H5Fcreate(path.encode(), C.c_uint(2), I64(0), I64(0))
        assert f >= 0, path
        made = set()
        for name, a in data.items():
            a = np.asarray(a)
            ty = self.int if a.dtype == np.int32 else self.dbl
            a = np.ascontiguousarray(a, dtype=np.int32 if a.dtype == np.int32 else float)
            if '/' in name and name.split('/')[0] not in made:
                g = so.H5Gcreate2(I64(f), name.split('/')[0].encode(), I64(0), I64(0), I64(0))
                so.H5Gclose(I64(g))
                made.add(name.split('/')[0])
            dims = (C.c_uint64 * a.ndim)(*a.shape)
            s = so.H5Screate_simple(C.c_int(a.ndim), dims, None)
            d = so.H5Dcreate2(I64(f), name.encode(), ty, I64(s), I64(0), I64(0), I64(0))
            assert d >= 0, name
            assert so.H5Dwrite(I64(d), ty, I64(0), I64(0), I64(0), a.ctypes.data_as(C.c_void_p)) >= 0
            so.H5Dclose(I64(d))
            so.H5Sclose(I64(s))
        so.H5Fclose(I64(f))

    def group(self, f, name):
        so = self.so
        g = so.H5Gopen2(I64(f), name.encode(), I64(0))
        if g < 0:
            return []
        n = C.c_uint64()
        so.H5Gget_num_objs(I64(g), C.byref(n))
        out = []
        for i in range(n.value):
            b = C.create_string_buffer(300)
            so.H5Gget_objname_by_idx(I64(g), C.c_uint64(i), b, C.c_size_t(300))
            out.append(b.value.decode())
        so.H5Gclose(I64(g))
        return out

    def dataset(self, f, name, typ='d'):
        so = self.so
        d = so.H5Dopen2(I64(f), name.encode(), I64(0))
        if d < 0:
            return None
        s = so.H5Dget_space(I64(d))
        nd = so.H5Sget_simple_extent_ndims(I64(s))
        dims = (C.c_uint64 * max(nd, 1))()
        so.H5Sget_simple_extent_dims(I64(s), dims, None)
        a = np.zeros([int(x) for x in dims][:nd], dtype=float if typ == 'd' else np.int32)
        so.H5Dread(I64(d), self.dbl if typ == 'd' else self.int, I64(0), I64(0), I64(0), a.ctypes.data_as(C.c_void_p))
        so.H5Dclose(I64(d))
        so.H5Sclose(I64(s))
        return a

    def read(self, path, attrs=()):
        """{'group/name': array} of all datasets two levels deep, and integer attributes of the root"""
        so = self.so
        f = so.H5Fopen(path.encode(), C.c_uint(0), I64(0))
        if f < 0:
            return None
        out = {}
        for n in self.group(f, '/'):
            subs = self.group(f, '/' + n)
            for q in subs:
                for z in self.group(f, '/%s/%s' % (n, q)):
                    out['%s/%s/%s' % (n, q, z)] = self.dataset(f, '/%s/%s/%s' % (n, q, z))
                a = self.dataset(f, '/%s/%s' % (n, q))
                if a is not None:
                    out['%s/%s' % (n, q)] = a
            if not subs:
                a = self.dataset(f, '/' + n)
                if a is not None:
                    out[n] = a
        at = {}
        for k in attrs:
            h = so.H5Aopen_by_name(I64(f), b'/', k.encode(), I64(0), I64(0))
            if h >= 0:
                v = C.c_int()
                so.H5Aread(I64(h), self.int, C.byref(v))
                so.H5Aclose(I64(h))
                at[k] = v.value
        so.H5Fclose(I64(f))
        return out, at
