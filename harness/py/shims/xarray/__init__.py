"""A small stand-in for xarray (not installed in this sandbox): reading a result file (through libnetcdf) and the few
DataArray operations hydrobricks.results uses.  Everything else raises ShimMissing ("cannot be decided here")."""
import ctypes as C
import datetime as _dt
import os

import numpy as np
import pandas as pd


def missing(what):
    raise pd.ShimMissing("xarray." + str(what))


def __getattr__(name):
    if name.startswith("_"):
        raise AttributeError(name)
    missing(name)


_nc = None


def _lib():
    global _nc
    if _nc is None:
        for n in ("libnetcdf.so.19", "libnetcdf.so"):
            try:
                _nc = C.CDLL(n)
                break
            except OSError:
                pass
        else:
            missing("libnetcdf")
    return _nc


def _ck(rc):
    if rc:
        _nc.nc_strerror.restype = C.c_char_p
        raise OSError("netCDF: " + _nc.nc_strerror(rc).decode())


_TYPES = {1: np.int8, 3: np.int16, 4: np.int32, 5: np.float32, 6: np.float64, 7: np.uint8, 8: np.uint16, 9: np.uint32,
          10: np.int64, 11: np.uint64}


def _attr(nc, var, name):
    t, n = C.c_int(), C.c_size_t()
    _ck(_lib().nc_inq_att(nc, var, name, C.byref(t), C.byref(n)))
    if t.value == 2:
        b = C.create_string_buffer(n.value + 1)
        _ck(_lib().nc_get_att_text(nc, var, name, b))
        return b.raw[:n.value].rstrip(b"\0").decode()
    if t.value == 12:
        p = (C.c_char_p * max(n.value, 1))()
        _ck(_lib().nc_get_att_string(nc, var, name, p))
        v = [(x or b"").decode() for x in p[:n.value]]
        return v[0] if len(v) == 1 else v      # what netCDF4-python (and hence xarray) returns
    a = np.zeros(n.value, _TYPES[t.value])
    _ck(_lib().nc_get_att(nc, var, name, a.ctypes.data_as(C.c_void_p)))
    return a[0] if n.value == 1 else a


def _attrs(nc, var, count):
    r = {}
    for i in range(count):
        b = C.create_string_buffer(300)
        _ck(_lib().nc_inq_attname(nc, var, i, b))
        r[b.value.decode()] = _attr(nc, var, b.value)
    return r


class DataArray:
    def __init__(self, data, dims, coords=None, attrs=None, name=None):
        self._d = np.asarray(data)
        self.dims = tuple(dims)
        self.coords = dict(coords or {})
        self.attrs = dict(attrs or {})
        self.name = name

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        missing("DataArray." + n)

    shape = property(lambda s: s._d.shape)
    size = property(lambda s: s._d.size)
    ndim = property(lambda s: s._d.ndim)
    dtype = property(lambda s: s._d.dtype)
    values = property(lambda s: s._d)
    sizes = property(lambda s: dict(zip(s.dims, s._d.shape)))

    def to_numpy(self):
        return self._d

    def __array__(self, dtype=None, copy=None):
        return self._d if dtype is None else self._d.astype(dtype)

    def __len__(self):
        return len(self._d)

    def __iter__(self):
        missing("DataArray.__iter__")

    def __getitem__(self, k):
        k = k if isinstance(k, tuple) else (k,)
        if any(x is Ellipsis or x is None for x in k):
            missing("DataArray[...]")
        k = k + (slice(None),) * (self._d.ndim - len(k))
        d, dims = self._d, []
        for ax in reversed(range(len(k))):
            i = k[ax]
            if isinstance(i, slice):
                d = d[(slice(None),) * ax + (i,)]
                dims.insert(0, self.dims[ax])
            elif isinstance(i, (int, np.integer)):
                d = np.take(d, int(i), axis=ax)
            else:
                missing("DataArray[%r]" % (type(i),))
        c = {n: v for n, v in self.coords.items() if n in dims}
        for ax, n in enumerate(self.dims):
            if n in c and isinstance(k[ax], slice):
                c[n] = c[n][k[ax]]
        return DataArray(d, dims, c, self.attrs, self.name)

    def _bin(self, o, f):
        if isinstance(o, (int, float, np.number)):
            return DataArray(f(self._d, o), self.dims, self.coords)
        if not isinstance(o, DataArray):
            missing("DataArray op %s" % type(o))
        dims = list(self.dims) + [x for x in o.dims if x not in self.dims]

        def spread(a):
            have = [x for x in dims if x in a.dims]
            d = np.transpose(a._d, [a.dims.index(x) for x in have])
            return d.reshape([a._d.shape[a.dims.index(x)] if x in a.dims else 1 for x in dims])
        for x in dims:
            if x in self.dims and x in o.dims and self.sizes[x] != o.sizes[x]:
                raise ValueError("conflicting sizes for dimension " + x)
        return DataArray(f(spread(self), spread(o)), dims, {**o.coords, **self.coords})

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: a / b)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def sel(self, **kw):
        r = self
        for dim, k in kw.items():
            if dim != "time" or dim not in r.dims:
                missing("DataArray.sel(%s)" % dim)
            if k is None:
                raise KeyError(k)                # pandas looks for NaT
            t = r.coords[dim]._d if isinstance(r.coords[dim], DataArray) else r.coords[dim]

            def bound(x, last):
                if x is None:
                    return None
                if isinstance(x, str):
                    if not (len(x) == 10 and x[4] == "-" and x[7] == "-"):
                        missing("sel(time=%r)" % (x,))
                    d = np.datetime64(x, "ns")
                    return d + np.timedelta64(86399999999999, "ns") if last else d
                return np.datetime64(pd.Timestamp(x).to_pydatetime(), "ns")
            if isinstance(k, slice):
                if k.step is not None:
                    missing("sel step")
                lo, hi = bound(k.start, False), bound(k.stop, True)
                m = np.ones(len(t), bool)
                if lo is not None:
                    m &= t >= lo
                if hi is not None:
                    m &= t <= hi
                i = np.nonzero(m)[0]
                sl = slice(int(i[0]), int(i[-1]) + 1) if len(i) else slice(0, 0)
            else:
                lo, hi = bound(k, False), bound(k, isinstance(k, str))
                i = np.nonzero((t >= lo) & (t <= hi))[0]
                if not len(i):
                    raise KeyError(k)
                if len(i) > 1 or (len(t) > 1 and isinstance(k, str) and t[1] - t[0] < np.timedelta64(1, "D")):
                    missing("partial date selection")
                sl = int(i[0])
            r = r[tuple(sl if n == dim else slice(None) for n in r.dims)]
        return r


class Dataset:
    def __init__(self, path):
        nc = C.c_int()
        if not os.path.exists(path):
            raise FileNotFoundError(path)
        _ck(_lib().nc_open(os.fspath(path).encode(), 0, C.byref(nc)))
        nc = nc.value
        try:
            nd, nv, na, u = C.c_int(), C.c_int(), C.c_int(), C.c_int()
            _ck(_nc.nc_inq(nc, C.byref(nd), C.byref(nv), C.byref(na), C.byref(u)))
            self.attrs = _attrs(nc, -1, na.value)
            dims = []
            for i in range(nd.value):
                b, n = C.create_string_buffer(300), C.c_size_t()
                _ck(_nc.nc_inq_dim(nc, i, b, C.byref(n)))
                dims.append((b.value.decode(), n.value))
            self.sizes = dict(dims)
            self._v = {}
            for i in range(nv.value):
                b, t, k, m, ids = C.create_string_buffer(300), C.c_int(), C.c_int(), C.c_int(), (C.c_int * 16)()
                _ck(_nc.nc_inq_var(nc, i, b, C.byref(t), C.byref(k), ids, C.byref(m)))
                ds = [dims[x] for x in ids[:k.value]]
                if t.value not in _TYPES:
                    missing("variable type")
                a = np.zeros([x[1] for x in ds], _TYPES[t.value])
                if a.size:
                    _ck(_nc.nc_get_var(nc, i, a.ctypes.data_as(C.c_void_p)))
                at = _attrs(nc, i, m.value)
                fill = at.pop("_FillValue", None)
                if fill is not None and a.dtype.kind == "f":
                    a = np.where(a == fill, np.nan, a)
                un = at.get("units")
                if isinstance(un, str) and un.startswith("days since "):
                    o = _dt.datetime.fromisoformat(un[11:].strip())
                    a = np.array([np.datetime64(o + _dt.timedelta(microseconds=round(float(x) * 86400e6)), "ns")
                                  for x in a], dtype="datetime64[ns]")
                    at.pop("units")
                elif isinstance(un, str) and " since " in un:
                    missing("time units " + un)
                self._v[b.value.decode()] = (a, [x[0] for x in ds], at)
        finally:
            _nc.nc_close(nc)

    def _coords(self, dims):
        return {d: self._v[d][0] for d in dims if d in self._v and self._v[d][1] == [d]}

    def __getitem__(self, n):
        if n not in self._v:
            raise KeyError(n)
        a, d, at = self._v[n]
        return DataArray(a, d, self._coords(d), at, n)

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        if n in self.__dict__.get("_v", {}):
            return self[n]
        missing("Dataset." + n)

    def __contains__(self, n):
        return n in self._v

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def open_dataset(path, **kw):
    if kw:
        missing("open_dataset(%s)" % ",".join(kw))
    return Dataset(path)
