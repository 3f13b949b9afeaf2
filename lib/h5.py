"""Minimal HDF5 access through ctypes (the shared serial library)."""
import ctypes as C, numpy as np, os

_l = None


def lib():
    global _l
    if _l is None:
        for n in ('libhdf5_serial.so.103', 'libhdf5_serial.so', '/usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so', 'libhdf5_serial.so.100'):
            try:
                _l = C.CDLL(n)
                break
            except OSError:
                pass
        hid = C.c_int64
        for f in ('H5Fopen', 'H5Fcreate', 'H5Dopen2', 'H5Dget_space', 'H5Dget_type', 'H5Dcreate2', 'H5Screate_simple', 'H5Screate', 'H5Aopen', 'H5Aopen_by_idx',
                  'H5Aget_space', 'H5Aget_type', 'H5Acreate2', 'H5Tcopy', 'H5Gopen2', 'H5Oopen'):
            getattr(_l, f).restype = hid
        _l.H5open()
        _l.H5Eset_auto2(hid(0), None, None)
        _l.H5Tget_size.restype = C.c_size_t
        _l.H5Gget_num_objs.argtypes = [hid, C.POINTER(C.c_uint64)]
        _l.H5Gget_objname_by_idx.argtypes = [hid, C.c_uint64, C.c_char_p, C.c_size_t]
        _l.H5Gget_objname_by_idx.restype = C.c_ssize_t
    return _l


def _h(n):
    return C.c_int64.in_dll(lib(), n).value


def H(x):
    return C.c_int64(x)


def _read(obj, space, typ, rd):
    l = lib()
    nd = l.H5Sget_simple_extent_ndims(H(space))
    dims = (C.c_uint64 * max(nd, 1))()
    if nd > 0:
        l.H5Sget_simple_extent_dims(H(space), dims, None)
    shp = tuple(dims[i] for i in range(nd)) if nd > 0 else ()
    cls = l.H5Tget_class(H(typ))
    if cls == 3:  # string
        sz = l.H5Tget_size(H(typ))
        b = C.create_string_buffer(int(sz) * int(np.prod(shp) if shp else 1) + 1)
        if rd(typ, b) < 0:
            return None
        return b.raw[:sz].split(b'\0')[0].decode(errors='replace')
    a = np.zeros(shp, dtype=np.float64)
    if rd(_h('H5T_NATIVE_DOUBLE_g'), a.ctypes.data_as(C.c_void_p)) < 0:
        return None
    return a


def read(path):
    """-> {'data': {name: array}, 'attrs': {'/name' or 'dset/name': value}} or None when unreadable"""
    l = lib()
    if not os.path.exists(path):
        return None
    f = l.H5Fopen(path.encode(), C.c_uint(0), H(0))
    if f < 0:
        return None
    out = {'data': {}, 'attrs': {}}

    def attrs(obj, prefix):
        n = l.H5Aget_num_attrs(H(obj))
        for i in range(max(n, 0)):
            a = l.H5Aopen_by_idx(H(obj), b'.', 0, 0, C.c_uint64(i), H(0), H(0))
            if a < 0:
                continue
            nb = C.create_string_buffer(256)
            l.H5Aget_name(H(a), C.c_size_t(256), nb)
            s, t = l.H5Aget_space(H(a)), l.H5Aget_type(H(a))
            out['attrs'][prefix + '/' + nb.value.decode(errors='replace')] = _read(a, s, t, lambda ty, b: l.H5Aread(H(a), H(ty), b))
            l.H5Sclose(H(s)); l.H5Tclose(H(t)); l.H5Aclose(H(a))
    try:
        g = l.H5Gopen2(H(f), b'/', H(0))
        n = C.c_uint64()
        l.H5Gget_num_objs(g, C.byref(n))
        attrs(g, '')
        for i in range(n.value):
            nb = C.create_string_buffer(4096)
            l.H5Gget_objname_by_idx(g, i, nb, 4096)
            d = l.H5Dopen2(H(f), nb.value, H(0))
            if d < 0:
                continue
            s, t = l.H5Dget_space(H(d)), l.H5Dget_type(H(d))
            out['data'][nb.value.decode(errors='replace')] = _read(d, s, t, lambda ty, b: l.H5Dread(H(d), H(ty), H(0), H(0), H(0), b))
            attrs(d, nb.value.decode(errors='replace'))
            l.H5Sclose(H(s)); l.H5Tclose(H(t)); l.H5Dclose(H(d))
        l.H5Gclose(H(g))
    finally:
        l.H5Fclose(H(f))
    return out


def write(path, data, attrs=None, ftype=None):
    """ftype: HDF5 name of the number type in the file, e.g. IEEE_F32BE"""
    l = lib()
    f = l.H5Fcreate(path.encode(), C.c_uint(2), H(0), H(0))
    if f < 0:
        raise OSError(path)
    dbl = _h('H5T_NATIVE_DOUBLE_g')

    def wr_attr(loc, name, v):
        if isinstance(v, str):
            t = l.H5Tcopy(H(_h('H5T_C_S1_g')))
            l.H5Tset_size(H(t), C.c_size_t(len(v) + 1))
            s = l.H5Screate(0)
            a = l.H5Acreate2(H(loc), name.encode(), H(t), H(s), H(0), H(0))
            l.H5Awrite(H(a), H(t), v.encode() + b'\0')
        else:
            v = np.ascontiguousarray(v, dtype=np.float64)
            dm = (C.c_uint64 * max(v.ndim, 1))(*v.shape)
            s = l.H5Screate_simple(v.ndim, dm, None) if v.ndim else l.H5Screate(0)
            a = l.H5Acreate2(H(loc), name.encode(), H(dbl), H(s), H(0), H(0))
            l.H5Awrite(H(a), H(dbl), v.ctypes.data_as(C.c_void_p))
        l.H5Aclose(H(a)); l.H5Sclose(H(s))
    for n, a in data.items():
        a = np.ascontiguousarray(a, dtype=np.float64)
        dm = (C.c_uint64 * max(a.ndim, 1))(*a.shape)
        s = l.H5Screate_simple(a.ndim, dm, None) if a.ndim else l.H5Screate(0)
        d = l.H5Dcreate2(H(f), n.encode(), H(_h('H5T_%s_g' % ftype) if ftype else dbl), H(s), H(0), H(0), H(0))
        l.H5Dwrite(H(d), H(dbl), H(0), H(0), H(0), a.ctypes.data_as(C.c_void_p))
        l.H5Sclose(H(s)); l.H5Dclose(H(d))
    g = l.H5Gopen2(H(f), b'/', H(0))
    for n, v in (attrs or {}).items():
        wr_attr(g, n.lstrip('/'), v)
    l.H5Gclose(H(g)); l.H5Fclose(H(f))
