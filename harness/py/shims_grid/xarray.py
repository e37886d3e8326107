"""A stand-in for xarray for data on grids (M16): labelled arrays with the operations of hydrobricks.time_series; files are
pickles (dims, coords, variables, attributes).  Arithmetic between arrays joins equal coordinates only; everything else that
is not listed raises ShimMissing ("cannot be decided here")."""
import os
import pickle

import numpy as np
import pandas as pd


def missing(what):
    raise pd.ShimMissing("xarray." + str(what))


def __getattr__(name):
    if name.startswith("_"):
        raise AttributeError(name)
    missing(name)


class Variable:
    """A variable without coordinates."""

    def __init__(self, dims, data, attrs=None):
        self.dims, self._d, self.attrs = tuple(dims), np.asarray(data), dict(attrs or {})

    data = values = property(lambda s: s._d)
    shape = property(lambda s: s._d.shape)
    size = property(lambda s: s._d.size)
    ndim = property(lambda s: s._d.ndim)
    dtype = property(lambda s: s._d.dtype)

    def __len__(self):
        if not self._d.ndim:
            raise TypeError("len() of unsized object")
        return len(self._d)

    def __iter__(self):
        return (Variable((), self._d[i]) for i in range(len(self)))

    def __array__(self, dtype=None, copy=None):
        return self._d if dtype is None else self._d.astype(dtype)

    def __getitem__(self, k):
        if not isinstance(k, (int, np.integer, slice)):
            missing("Variable[%s]" % type(k))
        return Variable(self.dims if isinstance(k, slice) else self.dims[1:], self._d[k])

    def _t(self, o):
        if isinstance(o, Variable):
            o = o._d
        if self._d.dtype.kind == "M":
            if isinstance(o, np.ndarray) and o.ndim == 0:
                o = o[()]
            o = np.datetime64(pd.Timestamp(o).to_pydatetime(), "ns")
        return o

    def __eq__(self, o):
        return Variable(self.dims, self._d == self._t(o))

    def __ne__(self, o):
        return Variable(self.dims, self._d != self._t(o))

    __hash__ = None

    def __bool__(self):
        return bool(self._d)

    def item(self):
        return self._d.item()

    def to_numpy(self):
        return self._d

    def searchsorted(self, v, side="left", sorter=None):
        return self._d.searchsorted(v, side, sorter)

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        missing("Variable." + n)


class DataArray:
    __array_priority__ = 1000

    def __init__(self, data=None, coords=None, dims=None, name=None, attrs=None):
        self.dims = tuple(dims)
        self._c = {k: np.asarray(v) for k, v in (coords or {}).items() if k in self.dims}
        self._d = np.full([len(self._c[d]) for d in self.dims], np.nan) if data is None else np.asarray(data)
        if self._d.ndim != len(self.dims) or any(self._d.shape[i] != len(self._c[d]) for i, d in enumerate(self.dims) if d in self._c):
            raise ValueError("conflicting sizes for dimensions %s" % (self.dims,))
        self.attrs, self.name = dict(attrs or {}), name
        self._crs = self._nodata = None

    def _like(self, d, dims=None, coords=None):
        r = DataArray(d, self._c if coords is None else coords, self.dims if dims is None else dims, self.name, self.attrs)
        r._crs, r._nodata = self._crs, self._nodata
        return r

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        if n in self.__dict__.get("_c", {}):
            return self[n]
        missing("DataArray." + n)

    def __setattr__(self, n, v):
        if n in ("values", "data"):
            v = np.asarray(v)
            if v.shape != self._d.shape:
                raise ValueError("replacement data must match the Variable's shape")
            self.__dict__["_d"] = v
        else:
            self.__dict__[n] = v

    values = property(lambda s: s._d)
    data = property(lambda s: s._d)
    shape = property(lambda s: s._d.shape)
    size = property(lambda s: s._d.size)
    ndim = property(lambda s: s._d.ndim)
    dtype = property(lambda s: s._d.dtype)
    sizes = property(lambda s: dict(zip(s.dims, s._d.shape)))
    coords = property(lambda s: {k: s[k] for k in s._c})

    @property
    def rio(self):
        import rioxarray
        return rioxarray.Rio(self)

    def __len__(self):
        return len(self._d)

    def __array__(self, dtype=None, copy=None):
        return self._d if dtype is None else self._d.astype(dtype)

    def to_numpy(self):
        return self._d

    def item(self):
        return self._d.item()

    def __bool__(self):
        return bool(self._d)

    def __float__(self):
        return float(self._d)

    def load(self):
        return self

    def compute(self):
        return self._like(self._d.copy())

    def close(self):
        pass

    def copy(self):
        return self._like(self._d.copy())

    def astype(self, t):
        return self._like(self._d.astype(t))

    def squeeze(self):
        keep = [i for i, d in enumerate(self.dims) if self._d.shape[i] != 1]
        return self._like(self._d.reshape([self._d.shape[i] for i in keep]), [self.dims[i] for i in keep],
                          {d: c for d, c in self._c.items() if d in [self.dims[i] for i in keep]})

    def drop_vars(self, names):
        if names != "band":
            missing("DataArray.drop_vars(%s)" % (names,))
        return self

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self._c:
                raise KeyError(k)
            return DataArray(self._c[k], {k: self._c[k]}, (k,), k)
        k = k if isinstance(k, tuple) else (k,)
        return self._isel(dict(zip(self.dims, k)))

    def _isel(self, kw):
        d, dims, c = self._d, list(self.dims), dict(self._c)
        for n, i in kw.items():
            if n not in dims:
                raise ValueError("Dimensions %r do not exist" % n)
            ax = dims.index(n)
            if isinstance(i, slice):
                d = d[(slice(None),) * ax + (i,)]
                if n in c:
                    c[n] = c[n][i]
            elif isinstance(i, (int, np.integer)):
                d = np.take(d, int(i), axis=ax)
                dims.pop(ax)
                c.pop(n, None)
            else:
                missing("DataArray[%s]" % type(i))
        return self._like(d, dims, c)

    def isel(self, **kw):
        return self._isel(kw)

    def sel(self, indexers=None, **kw):
        r = self
        for n, k in dict(indexers or {}, **kw).items():
            if not isinstance(k, slice) or k.step is not None or n not in self._c:
                missing("DataArray.sel(%s=%s)" % (n, k))
            c = self._c[n]
            up = len(c) < 2 or c[-1] > c[0]
            m = (c >= k.start) & (c <= k.stop) if up else (c <= k.start) & (c >= k.stop)
            i = np.nonzero(m)[0]
            r = r._isel({n: slice(int(i[0]), int(i[-1]) + 1) if len(i) else slice(0, 0)})
        return r

    def rename(self, names):
        for n in names.values():
            if n in self.dims:
                raise ValueError("the new name %r conflicts" % n)
        return self._like(self._d, [names.get(d, d) for d in self.dims], {names.get(d, d): c for d, c in self._c.items()})

    def get_axis_num(self, d):
        return self.dims.index(d)

    def diff(self, dim):
        ax = self.dims.index(dim)
        return self._like(np.diff(self._d, axis=ax), None, {d: (c[1:] if d == dim else c) for d, c in self._c.items()})

    def isnull(self):
        return self._like(np.isnan(self._d))

    def notnull(self):
        return self._like(~np.isnan(self._d))

    def fillna(self, v):
        if not isinstance(v, (int, float)):
            missing("fillna(%s)" % type(v))
        return self._like(np.where(np.isnan(self._d), v, self._d))

    def _red(self, f, a, kw):
        if a or kw:
            missing("reduction along a dimension")
        return DataArray(f(self._d), {}, ())

    def any(self, *a, **kw):
        return self._red(np.any, a, kw)

    def all(self, *a, **kw):
        return self._red(np.all, a, kw)

    def sum(self, *a, **kw):
        return self._red(np.nansum, a, kw)

    def min(self, *a, **kw):
        return self._red(np.nanmin, a, kw)

    def max(self, *a, **kw):
        return self._red(np.nanmax, a, kw)

    def interpolate_na(self, dim):
        x = self._c[dim].astype(float)
        if np.any(np.diff(x) < 0):
            raise ValueError("Index %r must be monotonically increasing" % dim)
        ax = self.dims.index(dim)

        def one(v):
            m = np.isnan(v)
            if not m.any() or m.all():
                return v
            v = v.copy()
            v[m] = np.interp(x[m], x[~m], v[~m], left=np.nan, right=np.nan)
            return v
        return self._like(np.apply_along_axis(one, ax, self._d) if self._d.size else self._d.copy())

    def rolling(self, center=False, min_periods=None, **dims):
        if not center or min_periods != 1 or any(k % 2 == 0 for k in dims.values()):
            missing("rolling")
        return _Rolling(self, dims)

    def reindex_like(self, other, method=None):
        if method != "nearest":
            missing("reindex_like")
        r = self
        for d in self.dims:
            if d not in self._c or d not in other._c:
                continue
            a, b = r._c[d], other._c[d]
            if a.dtype.kind == "M":
                if len(a) != len(b) or np.any(a != b):
                    missing("reindexing dates")
                continue
            i = []
            for v in b:
                t = np.abs(a - v)
                j = np.nonzero(t == t.min())[0]
                i.append(j[np.argmax(a[j])])      # pandas prefers the larger of two at the same distance
            r = r._like(np.take(r._d, i, axis=r.dims.index(d)), None, {**r._c, d: b})
        return r

    def _bin(self, o, f):
        if isinstance(o, (int, float, np.number)) or isinstance(o, np.ndarray) and o.ndim == 0:
            return self._like(f(self._d, o))
        if isinstance(o, np.ndarray) and o.shape == self._d.shape:
            return self._like(f(self._d, o))
        if not isinstance(o, DataArray):
            missing("DataArray op %s" % type(o))
        for d in self.dims:
            if d in o.dims:
                a, b = self._c.get(d), o._c.get(d)
                if (a is None or b is None) and self.sizes[d] != o.sizes[d]:
                    raise ValueError("conflicting sizes for dimension " + d)
                if a is not None and b is not None and (len(a) != len(b) or np.any(a != b)):
                    missing("arithmetic between different coordinates")
        dims = list(self.dims) + [d for d in o.dims if d not in self.dims]

        def spread(a):
            have = [d for d in dims if d in a.dims]
            v = np.transpose(a._d, [a.dims.index(d) for d in have])
            return v.reshape([a.sizes.get(d, 1) for d in dims])
        return self._like(f(spread(self), spread(o)), dims, {**o._c, **self._c})

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method != "__call__" or kw:
            missing("ufunc %s" % ufunc)
        if len(inputs) == 1:
            return self._like(ufunc(self._d))
        a, b = inputs
        if isinstance(a, DataArray):
            return a._bin(b, ufunc)
        return b._bin(a, lambda y, x: ufunc(x, y))

    for _n, _f in (("add", np.add), ("sub", np.subtract), ("mul", np.multiply), ("truediv", np.divide), ("eq", np.equal),
                   ("ne", np.not_equal), ("lt", np.less), ("le", np.less_equal), ("gt", np.greater), ("ge", np.greater_equal),
                   ("and", np.logical_and), ("or", np.logical_or)):
        def _op(self, o, _f=_f):
            with np.errstate(all="ignore"):
                return self._bin(o, _f)

        def _rop(self, o, _f=_f):
            with np.errstate(all="ignore"):
                return self._bin(o, lambda y, x: _f(x, y))
        locals()["__%s__" % _n] = _op
        if _n in ("add", "sub", "mul", "truediv"):
            locals()["__r%s__" % _n] = _rop
    __hash__ = None

    def __neg__(self):
        return self._like(-self._d)

    def __invert__(self):
        return self._like(~self._d)

    def __abs__(self):
        return self._like(np.abs(self._d))

    def where(self, cond, other=np.nan):
        return where(cond, self, other)


class _Rolling:
    def __init__(self, a, dims):
        self.a, self.d = a, dims

    def mean(self):
        a = self.a
        v = a._d.astype(float)
        m = ~np.isnan(v)
        s, n = np.where(m, v, 0.0), m.astype(float)
        for d, k in self.d.items():
            ax, h = a.dims.index(d), k // 2

            def roll(x):
                p = np.pad(x, [(h, h) if i == ax else (0, 0) for i in range(x.ndim)])
                return sum(np.take(p, range(i, i + x.shape[ax]), axis=ax) for i in range(k))
            s, n = roll(s), roll(n)
        with np.errstate(all="ignore"):
            return a._like(np.where(n > 0, s / n, np.nan))

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        missing("rolling." + n)


def where(cond, a, b):
    arrays = [x for x in (cond, a, b) if isinstance(x, DataArray)]
    first = arrays[0]
    for x in arrays[1:]:
        if x.dims != first.dims or x.shape != first.shape or any(np.any(x._c[d] != first._c[d]) for d in x._c if d in first._c):
            missing("where between different grids")
    v = [x._d if isinstance(x, DataArray) else x for x in (cond, a, b)]
    if any(isinstance(x, np.ndarray) and x.shape not in ((), first.shape) for x in v):
        missing("where between different shapes")
    return first._like(np.where(*v))


class Dataset:
    def __init__(self, blob):
        self._b = blob
        self.attrs = dict(blob.get("attrs", {}))
        self._v = {n: Variable(d, a) for n, (d, a) in blob["vars"].items()}
        self._crs = blob.get("crs")

    dims = sizes = property(lambda s: {d: n for v in s._v.values() for d, n in zip(v.dims, v.shape)})
    variables = property(lambda s: s._v)

    def _coord(self, n):
        return self._v[n].dims == (n,) or n in self._b.get("coords", ())

    coords = property(lambda s: {n: s[n] for n in s._v if s._coord(n)})
    data_vars = property(lambda s: {n: s[n] for n in s._v if not s._coord(n)})

    def __getitem__(self, n):
        if not isinstance(n, str) or n not in self._v:
            raise KeyError(n)
        v = self._v[n]
        r = DataArray(v._d, {d: self._v[d]._d for d in v.dims if d in self._v and self._v[d].dims == (d,)}, v.dims, n, v.attrs)
        r._crs = self._crs
        return r

    def __contains__(self, n):
        return n in self._v

    def drop_vars(self, names):
        b = dict(self._b, vars={n: v for n, v in self._b["vars"].items() if n not in names})
        return Dataset(b)

    @property
    def rio(self):
        import rioxarray
        return rioxarray.Rio(self)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        if n in self.__dict__.get("_v", {}):
            return self[n]
        missing("Dataset." + n)


def _read(path):
    if not os.path.isfile(path):
        raise FileNotFoundError(2, "No such file or directory", str(path))
    with open(path, "rb") as f:
        return pickle.load(f)


def open_dataset(path, chunks=None, **kw):
    if kw:
        missing("open_dataset(%s)" % ",".join(kw))
    return Dataset(_read(path))


def open_mfdataset(paths, chunks=None, **kw):
    if kw:
        missing("open_mfdataset(%s)" % ",".join(kw))
    bs = [_read(p) for p in paths]
    if not bs:
        raise OSError("no files to open")
    t = bs[0].get("time", "time")
    bs.sort(key=lambda b: b["vars"][t][1][0])           # combine="by_coords"
    out = {}
    for n, (d, a) in bs[0]["vars"].items():
        out[n] = (d, np.concatenate([b["vars"][n][1] for b in bs], axis=list(d).index(t)) if t in d else a)
    return Dataset(dict(bs[0], vars=out))
