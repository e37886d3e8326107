"""A small stand-in for netCDF4-python (not installed in this sandbox), on libnetcdf: creating a file with dimensions,
variables and attributes, and reading one back.  Everything else raises ShimMissing ("cannot be decided here")."""
import ctypes as C
import os

import numpy as np
import pandas as pd


def missing(what):
    raise pd.ShimMissing("netCDF4." + str(what))


def __getattr__(name):
    if name.startswith("_"):
        raise AttributeError(name)
    missing(name)


_nc = None
_TYPES = {1: np.int8, 3: np.int16, 4: np.int32, 5: np.float32, 6: np.float64, 7: np.uint8, 8: np.uint16, 9: np.uint32,
          10: np.int64, 11: np.uint64}
_CODES = {np.dtype(t): c for c, t in _TYPES.items()}
_FILL = {4: -2147483647, 5: 9.969209968386869e36, 6: 9.969209968386869e36, 10: -9223372036854775806}


def _lib():
    global _nc
    if _nc is None:
        for n in ("libnetcdf.so.19", "libnetcdf.so"):
            try:
                _nc = C.CDLL(n)
                break
            except OSError:
                pass
        else:
            missing("libnetcdf")
        _nc.nc_strerror.restype = C.c_char_p
    return _nc


def _ck(rc):
    if rc:
        text = _lib().nc_strerror(rc).decode()
        if rc == 2:
            raise FileNotFoundError(2, text)
        raise RuntimeError("NetCDF: " + text)


def _getatt(nc, var, name):
    t, n = C.c_int(), C.c_size_t()
    _ck(_lib().nc_inq_att(nc, var, name, C.byref(t), C.byref(n)))
    if t.value == 2:
        b = C.create_string_buffer(n.value + 1)
        _ck(_lib().nc_get_att_text(nc, var, name, b))
        return b.raw[:n.value].rstrip(b"\0").decode()
    if t.value == 12:
        p = (C.c_char_p * max(n.value, 1))()
        _ck(_lib().nc_get_att_string(nc, var, name, p))
        v = [(x or b"").decode() for x in p[:n.value]]
        return v[0] if len(v) == 1 else v
    a = np.zeros(n.value, _TYPES[t.value])
    _ck(_lib().nc_get_att(nc, var, name, a.ctypes.data_as(C.c_void_p)))
    return a[0] if n.value == 1 else a


def _putatt(nc, var, name, value):
    name = name.encode()
    if isinstance(value, str):
        b = value.encode()
        _ck(_lib().nc_put_att_text(nc, var, name, C.c_size_t(len(b)), b))
        return
    if isinstance(value, (list, tuple)) and len(value) and all(isinstance(v, str) for v in value):
        p = (C.c_char_p * len(value))(*[v.encode() for v in value])
        _ck(_lib().nc_put_att_string(nc, var, name, C.c_size_t(len(value)), p))
        return
    a = np.atleast_1d(np.asarray(value))
    if a.dtype not in _CODES or a.ndim != 1:
        missing("attribute of type %s" % a.dtype)
    a = np.ascontiguousarray(a)
    _ck(_lib().nc_put_att(nc, var, name, _CODES[a.dtype], C.c_size_t(a.size), a.ctypes.data_as(C.c_void_p)))


class _Atts:
    def ncattrs(self):
        n = C.c_int()
        if self._var == -1:
            _ck(_lib().nc_inq_natts(self._nc, C.byref(n)))
        else:
            _ck(_lib().nc_inq_varnatts(self._nc, self._var, C.byref(n)))
        r = []
        for i in range(n.value):
            b = C.create_string_buffer(300)
            _ck(_lib().nc_inq_attname(self._nc, self._var, i, b))
            r.append(b.value.decode())
        return r

    def getncattr(self, name):
        return _getatt(self._nc, self._var, name.encode())

    def setncattr(self, name, value):
        _putatt(self._nc, self._var, name, value)

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        if name in self.ncattrs():
            return self.getncattr(name)
        if name in _REAL:
            missing(name)
        raise AttributeError("NetCDF: Attribute not found")

    def __setattr__(self, name, value):
        if name.startswith("_") or name in self._own:
            object.__setattr__(self, name, value)
        else:
            self.setncattr(name, value)


_REAL = {"set_auto_mask", "set_auto_scale", "set_auto_maskandscale", "sync", "renameVariable", "createGroup", "groups",
         "filters", "chunking", "get_dims", "file_format", "data_model", "set_fill_on", "isopen", "filepath", "endian"}


class Dimension:
    def __init__(self, name, size):
        self.name, self.size = name, size

    def __len__(self):
        return self.size


class Variable(_Atts):
    _own = {"name", "dimensions", "shape", "dtype", "ndim"}

    def __init__(self, ds, i, lsd=None):
        self._ds, self._nc, self._var, self._lsd = ds, ds._nc, i, lsd
        b, t, nd, na = C.create_string_buffer(300), C.c_int(), C.c_int(), C.c_int()
        ids = (C.c_int * 32)()
        _ck(_lib().nc_inq_var(self._nc, i, b, C.byref(t), C.byref(nd), ids, C.byref(na)))
        if t.value not in _TYPES:
            missing("variable of type %d" % t.value)
        self.name, self._t = b.value.decode(), t.value
        self.dimensions = tuple(list(ds.dimensions)[k] for k in ids[:nd.value])
        self.shape = tuple(len(ds.dimensions[d]) for d in self.dimensions)
        self.ndim, self.dtype = nd.value, np.dtype(_TYPES[t.value])
        for a in self.ncattrs():
            if a in ("scale_factor", "add_offset", "missing_value", "valid_min", "valid_max", "valid_range", "_Unsigned"):
                missing("attribute " + a)

    def __len__(self):
        return self.shape[0]

    def _all(self):
        a = np.zeros(self.shape, self.dtype)
        _ck(_lib().nc_get_var(self._nc, self._var, a.ctypes.data_as(C.c_void_p)))
        fill = self.getncattr("_FillValue") if "_FillValue" in self.ncattrs() else _FILL.get(self._t)
        m = np.zeros(self.shape, bool)
        if fill is not None:
            m = np.isnan(a) if fill != fill else a == self.dtype.type(fill)
        return np.ma.masked_array(a, mask=m if m.any() else False, fill_value=fill)

    def __getitem__(self, k):
        return self._all()[k]

    def __setitem__(self, k, v):
        if not (isinstance(k, slice) and k == slice(None) or k is Ellipsis or
                isinstance(k, tuple) and len(k) == self.ndim and all(isinstance(s, slice) and s == slice(None) for s in k)):
            missing("writing a part of a variable")
        if isinstance(v, np.ma.MaskedArray) and v.mask.any():
            missing("writing masked values")
        v = np.asarray(v)
        if v.dtype == object:
            v = v.astype(self.dtype)
        if v.shape != self.shape:
            v = v.reshape(self.shape) if v.size == int(np.prod(self.shape)) else np.broadcast_to(v, self.shape)
        if self._lsd is not None:
            s = 2.0 ** np.ceil(np.log2(10.0 ** self._lsd))
            v = np.around(s * v) / s
        v = np.ascontiguousarray(v.astype(self.dtype))
        _ck(_lib().nc_put_var(self._nc, self._var, v.ctypes.data_as(C.c_void_p)))


class Dataset(_Atts):
    _own = {"dimensions", "variables"}
    _var = -1

    def __init__(self, filename, mode="r", clobber=True, format="NETCDF4", **kw):
        if kw or mode not in ("r", "w") or format not in ("NETCDF4", True):
            # the second positional after mode is clobber; the package passes the format there
            if clobber != "NETCDF4":
                missing("Dataset(%r, %r)" % (mode, kw))
        h = C.c_int()
        if mode == "w":
            _ck(_lib().nc_create(os.fspath(filename).encode(), 0x1000, C.byref(h)))
        else:
            _ck(_lib().nc_open(os.fspath(filename).encode(), 0, C.byref(h)))
        self._nc, self._open, self._mode = h.value, True, mode
        self.dimensions, self.variables = {}, {}
        if mode == "r":
            nd, nv, na, un = C.c_int(), C.c_int(), C.c_int(), C.c_int()
            _ck(_lib().nc_inq(h, C.byref(nd), C.byref(nv), C.byref(na), C.byref(un)))
            for i in range(nd.value):
                b, n = C.create_string_buffer(300), C.c_size_t()
                _ck(_lib().nc_inq_dim(h, i, b, C.byref(n)))
                self.dimensions[b.value.decode()] = Dimension(b.value.decode(), n.value)
            for i in range(nv.value):
                v = Variable(self, i)
                self.variables[v.name] = v

    def createDimension(self, name, size=None):
        if not size:
            missing("unlimited dimension")
        i = C.c_int()
        _ck(_lib().nc_def_dim(self._nc, name.encode(), C.c_size_t(size), C.byref(i)))
        self.dimensions[name] = Dimension(name, size)
        return self.dimensions[name]

    def createVariable(self, varname, datatype, dimensions=(), zlib=False, least_significant_digit=None, **kw):
        if kw:
            missing("createVariable(%s)" % ", ".join(kw))
        t = _CODES.get(np.dtype(datatype))
        if t is None:
            missing("variable of type %r" % (datatype,))
        dims = [list(self.dimensions).index(d) for d in ([dimensions] if isinstance(dimensions, str) else dimensions)]
        i = C.c_int()
        _ck(_lib().nc_def_var(self._nc, str(varname).encode(), t, len(dims), (C.c_int * max(1, len(dims)))(*dims), C.byref(i)))
        if zlib and dims:
            _ck(_lib().nc_def_var_deflate(self._nc, i.value, 1, 1, 4))
        v = Variable(self, i.value, least_significant_digit)
        self.variables[str(varname)] = v
        if least_significant_digit is not None:
            v.setncattr("least_significant_digit", int(least_significant_digit))
        return v

    def __getitem__(self, k):
        return self.variables[k]

    def close(self):
        if self._open:
            self._open = False
            _ck(_lib().nc_close(self._nc))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        try:
            self.close()
        except Exception:
            pass
