"""A small stand-in for pandas (not installed in this sandbox): the part of its interface the hydrobricks Python
package uses.  Anything that is not implemented raises ShimMissing, which the checks treat as "cannot be decided
here", never as a violation.  It is validated by running the package's own Python tests on it."""
import builtins
import csv
import datetime as _dt
import math
import re

import numpy as np


class ShimMissing(BaseException):
    pass


class NoSuchColumn(AttributeError):
    """Not a limit of the stand-in: pandas has no such attribute either."""


def missing(what):
    raise ShimMissing("pandas." + str(what))


def __getattr__(name):
    if name.startswith("_") or name == "pytestmark":
        raise AttributeError(name)
    missing(name)


class _Missing:
    def __getattr__(self, name):
        if name.startswith("_") or name == "pytestmark":
            raise AttributeError(name)
        missing(type(self).__name__ + "." + name)


# Public attributes of the real Series and DataFrame: what is in this list and not implemented here is undecided; any other
# name is a column that does not exist, as in pandas.
REAL = set("""T abs add add_prefix add_suffix agg aggregate align all any apply applymap argmax argmin argsort array asfreq asof
assign astype at at_time attrs autocorr axes backfill between between_time bfill bool boxplot case_when cat clip columns combine
combine_first compare convert_dtypes copy corr corrwith count cov cummax cummin cumprod cumsum describe diff div divide divmod dot
drop drop_duplicates droplevel dropna dt dtype dtypes duplicated empty eq equals eval ewm expanding explode factorize ffill fillna
filter first first_valid_index flags floordiv from_dict from_records ge get groupby gt hasnans head hist iat idxmax idxmin iloc index
infer_objects info insert interpolate is_monotonic_decreasing is_monotonic_increasing is_unique isetitem isin isna isnull item items
iterrows itertuples join keys kurt kurtosis last last_valid_index le list loc lt map mask max mean median melt memory_usage merge min
mod mode mul multiply name nbytes ndim ne nlargest notna notnull nsmallest nunique pad pct_change pipe pivot pivot_table plot pop pow
prod product quantile query radd rank ravel rdiv rdivmod reindex reindex_like rename rename_axis reorder_levels repeat replace resample
reset_index rfloordiv rmod rmul rolling round rpow rsub rtruediv sample searchsorted select_dtypes sem set_axis set_flags set_index
shape shift size skew sort_index sort_values sparse squeeze stack std str struct style sub subtract sum swapaxes swaplevel tail take
to_clipboard to_csv to_dict to_excel to_feather to_frame to_gbq to_hdf to_html to_json to_latex to_list to_markdown to_numpy to_orc
to_parquet to_period to_pickle to_records to_sql to_stata to_string to_timestamp to_xarray to_xml transform transpose truediv truncate
tz_convert tz_localize unique unstack update value_counts values var view where xs""".split())


# ------------------------------------------------------------------ time
class Timedelta(_dt.timedelta):
    def __new__(cls, value=0, unit=None, **kw):
        if isinstance(value, _dt.timedelta):
            return _dt.timedelta.__new__(cls, value.days, value.seconds, value.microseconds)
        if isinstance(value, np.timedelta64):
            us = int(value / np.timedelta64(1, "us"))
            return _dt.timedelta.__new__(cls, 0, 0, us)
        if isinstance(value, str):
            m = re.fullmatch(r"\s*(-?[\d.]+)\s*(\w+)\s*", value)
            if not m:
                missing("Timedelta(%r)" % value)
            value, unit = float(m.group(1)), m.group(2)
        u = {None: None, "D": "days", "d": "days", "day": "days", "days": "days", "h": "hours", "H": "hours",
             "hour": "hours", "hours": "hours", "m": "minutes", "min": "minutes", "minutes": "minutes", "s": "seconds",
             "seconds": "seconds", "W": "weeks"}.get(unit, "?")
        if u == "?":
            missing("Timedelta unit")
        if u:
            kw[u] = float(value)
        t = _dt.timedelta(**kw)
        return _dt.timedelta.__new__(cls, t.days, t.seconds, t.microseconds)

    def total_days(self):
        return self.total_seconds() / 86400


def _wrap_td(t):
    return Timedelta(t) if isinstance(t, _dt.timedelta) else t


class DateOffset:
    def __init__(self, **kw):
        self.kw = kw
        for k in kw:
            if k not in ("years", "months", "days", "hours", "minutes", "seconds", "weeks"):
                missing("DateOffset(%s)" % k)

    def add(self, t, s=1):
        y, m = t.year, t.month
        n = (y * 12 + m - 1) + s * (self.kw.get("years", 0) * 12 + self.kw.get("months", 0))
        y, m = divmod(n, 12)
        m += 1
        d = builtins.min(t.day, _mdays(y, m))
        r = _dt.datetime(y, m, d, t.hour, t.minute, t.second, t.microsecond)
        r += s * _dt.timedelta(**{k: v for k, v in self.kw.items() if k not in ("years", "months")})
        return Timestamp(r)

    def __radd__(self, o):
        return self.add(Timestamp(o))

    def __rsub__(self, o):
        return self.add(Timestamp(o), -1)


def _mdays(y, m):
    return 31 if m == 12 else (_dt.date(y, m + 1, 1) - _dt.date(y, m, 1)).days


_FORMATS = ["%Y-%m-%d", "%Y-%m-%d %H:%M:%S", "%Y-%m-%dT%H:%M:%S", "%Y-%m-%d %H:%M", "%Y-%m-%dT%H:%M", "%Y/%m/%d",
            "%m/%d/%Y", "%Y%m%d", "%Y-%m", "%Y", "%d.%m.%Y"]


def _parse(s, fmt=None):
    s = s.strip()
    for f in ([fmt] if fmt else _FORMATS):
        try:
            return _dt.datetime.strptime(s, f)
        except ValueError:
            pass
    try:
        if not fmt:
            return _dt.datetime.fromisoformat(s).replace(tzinfo=None)
    except ValueError:
        pass
    raise ValueError("time data %r cannot be parsed" % s)


class Timestamp(_dt.datetime):
    def __new__(cls, value=None, month=None, day=None, hour=0, minute=0, second=0, microsecond=0,
                tzinfo=None, **kw):
        if tzinfo is not None:
            missing("Timestamp with a time zone")
        if kw.get("year"):
            y = kw["year"]
            return _dt.datetime.__new__(cls, y, month, day, hour, minute, second, microsecond)
        if month is not None:
            return _dt.datetime.__new__(cls, value, month, day, hour, minute, second, microsecond)
        if isinstance(value, Timestamp):
            v = value
        elif isinstance(value, _dt.datetime):
            v = value
        elif isinstance(value, _dt.date):
            v = _dt.datetime(value.year, value.month, value.day)
        elif isinstance(value, str):
            v = _parse(value)
        elif isinstance(value, np.datetime64):
            if np.isnat(value):
                return NaT
            v = value.astype("datetime64[us]").astype(object)
        elif isinstance(value, (int, np.integer)):
            v = np.datetime64(int(value), "ns").astype("datetime64[us]").astype(object)
        elif value is None or (isinstance(value, float) and math.isnan(value)):
            return NaT
        else:
            missing("Timestamp(%r)" % (value,))
        return _dt.datetime.__new__(cls, v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond)

    @classmethod
    def today(cls):
        return Timestamp(_dt.datetime.today())

    @classmethod
    def now(cls, tz=None):
        return Timestamp(_dt.datetime.now())

    def to_pydatetime(self):
        return _dt.datetime(self.year, self.month, self.day, self.hour, self.minute, self.second, self.microsecond)

    def to_datetime64(self):
        return np.datetime64(self.to_pydatetime(), "ns")

    def to_numpy(self):
        return self.to_datetime64()

    def to_julian_date(self):
        d = self.to_pydatetime() - _dt.datetime(2000, 1, 1, 12)
        return 2451545.0 + d.days + (d.seconds + d.microseconds / 1e6) / 86400

    @property
    def dayofyear(self):
        return self.timetuple().tm_yday

    day_of_year = dayofyear

    @property
    def days_in_month(self):
        return _mdays(self.year, self.month)

    def normalize(self):
        return Timestamp(self.year, self.month, self.day)

    def strftime(self, f):
        return self.to_pydatetime().strftime(f)

    def isoformat(self, *a, **k):
        return self.to_pydatetime().isoformat(*a, **k)

    def replace(self, **k):
        return Timestamp(self.to_pydatetime().replace(**k))

    def __str__(self):
        return str(self.to_pydatetime())

    def __repr__(self):
        return "Timestamp('%s')" % self.to_pydatetime()

    def __add__(self, o):
        if isinstance(o, DateOffset):
            return o.add(self)
        if isinstance(o, np.timedelta64):
            o = Timedelta(o)
        r = _dt.datetime.__add__(self, o)
        return Timestamp(r) if r is not NotImplemented else r

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, DateOffset):
            return o.add(self, -1)
        if isinstance(o, np.datetime64):
            o = Timestamp(o)
        if isinstance(o, np.timedelta64):
            o = Timedelta(o)
        if isinstance(o, _dt.datetime):
            return Timedelta(self.to_pydatetime() - Timestamp(o).to_pydatetime())
        r = _dt.datetime.__sub__(self, o)
        return Timestamp(r) if isinstance(r, _dt.datetime) else _wrap_td(r)

    def _c(self, o):
        if isinstance(o, (np.datetime64, str)):
            o = Timestamp(o)
        return o

    def __eq__(self, o):
        if isinstance(o, np.ndarray) or hasattr(o, "__array__") and not isinstance(o, np.datetime64):
            return NotImplemented
        return isinstance(o, (_dt.datetime, np.datetime64)) and self.to_pydatetime() == _py(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return hash(self.to_pydatetime())

    def __lt__(self, o):
        if isinstance(o, (np.ndarray, Series, Index)):
            return NotImplemented
        return self.to_pydatetime() < _py(o)

    def __le__(self, o):
        if isinstance(o, (np.ndarray, Series, Index)):
            return NotImplemented
        return self.to_pydatetime() <= _py(o)

    def __gt__(self, o):
        if isinstance(o, (np.ndarray, Series, Index)):
            return NotImplemented
        return self.to_pydatetime() > _py(o)

    def __ge__(self, o):
        if isinstance(o, (np.ndarray, Series, Index)):
            return NotImplemented
        return self.to_pydatetime() >= _py(o)

    def __reduce__(self):
        return (Timestamp, (self.to_pydatetime(),))


def _py(o):
    if isinstance(o, np.datetime64):
        return Timestamp(o).to_pydatetime()
    if isinstance(o, Timestamp):
        return o.to_pydatetime()
    return o


class NaTType:
    def __repr__(self):
        return "NaT"

    def __eq__(self, o):
        return False

    def __hash__(self):
        return 7

    def __bool__(self):
        return True

    def __lt__(self, o):
        return False

    __gt__ = __le__ = __ge__ = __lt__


NaT = NaTType()
NA = float("nan")


def _isna1(v):
    if v is None or v is NaT:
        return True
    if isinstance(v, (float, np.floating)):
        return bool(np.isnan(v))
    if isinstance(v, (np.datetime64, np.timedelta64)):
        return bool(np.isnat(v))
    return False


def _isna_arr(a):
    a = np.asarray(a)
    if a.dtype.kind == "f":
        return np.isnan(a)
    if a.dtype.kind in "mM":
        return np.isnat(a)
    if a.dtype.kind == "O":
        return np.array([_isna1(v) for v in a.ravel()], dtype=bool).reshape(a.shape)
    return np.zeros(a.shape, dtype=bool)


def isna(v):
    if isinstance(v, Series):
        return v.isna()
    if isinstance(v, DataFrame):
        return v.isna()
    if isinstance(v, Index):
        return _isna_arr(v.values)
    if isinstance(v, np.ndarray):
        return _isna_arr(v)
    if isinstance(v, list):
        return np.array([_isna1(x) for x in v], dtype=bool)
    return _isna1(v)


isnull = isna


def notna(v):
    r = isna(v)
    return (not r) if isinstance(r, bool) else ~r


notnull = notna


# ------------------------------------------------------------------ arrays
def _obj(vals):
    a = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        a[i] = v
    return a


def _infer(vals):
    """A 1-D numpy array for a list of Python values, with pandas-like dtypes."""
    vals = list(vals)
    if not vals:
        return np.empty(0, dtype=object)
    if all(isinstance(v, (bool, np.bool_)) for v in vals):
        return np.array(vals, dtype=bool)
    if all(isinstance(v, (int, np.integer)) and not isinstance(v, (bool, np.bool_)) for v in vals):
        return np.array(vals, dtype=np.int64)
    if all((isinstance(v, (int, float, np.integer, np.floating)) and not isinstance(v, (bool, np.bool_))) or v is None
           for v in vals) and any(v is not None for v in vals):
        return np.array([np.nan if v is None else float(v) for v in vals], dtype=float)
    if all(isinstance(v, (_dt.datetime, np.datetime64)) or v is NaT for v in vals):
        return np.array([np.datetime64("NaT", "ns") if v is NaT else np.datetime64(_py(v), "ns") for v in vals],
                        dtype="datetime64[ns]")
    return _obj(vals)


def _array(v, n=None):
    """Any column value as a 1-D array of length n."""
    if isinstance(v, Series):
        v = v._v
    elif isinstance(v, Index):
        v = v.values
    elif isinstance(v, DataFrame):
        if len(v._cols) != 1:
            missing("column from a frame of several columns")
        v = v._cols[0]
    elif not isinstance(v, np.ndarray) and hasattr(v, "__array__") and getattr(v, "ndim", 0) == 1:
        v = np.asarray(v)
    if isinstance(v, np.ndarray):
        if v.ndim == 2 and v.shape[1] == 1:
            v = v[:, 0]
        if v.ndim == 0:
            v = v.item()
        elif v.ndim > 1:
            raise ValueError("Data must be 1-dimensional")
        else:
            if v.dtype.kind in "US":
                v = _obj([str(x) for x in v])
            elif v.dtype.kind == "M":
                v = v.astype("datetime64[ns]")
            if n is not None and len(v) != n:
                raise ValueError("Length of values (%d) does not match length of index (%d)" % (len(v), n))
            return np.array(v)
    if isinstance(v, (list, tuple, range, map, set)) or type(v).__name__ in ("dict_values", "dict_keys", "generator"):
        v = _infer(v)
        if n is not None and len(v) != n:
            raise ValueError("Length of values (%d) does not match length of index (%d)" % (len(v), n))
        return v
    if n is None:
        n = 1
    a = _infer([v])
    return np.repeat(a, n) if n else a[:0]


def _box(a, i):
    v = a[i]
    if isinstance(v, np.datetime64):
        return Timestamp(v)
    if isinstance(v, np.timedelta64):
        return Timedelta(v)
    return v


def _set(a, i, v):
    """Set positions i of a, widening the dtype as pandas does; returns the array to keep."""
    if isinstance(v, (Series, Index)):
        v = v.values
    scalar = not isinstance(v, (np.ndarray, list, tuple)) or np.isscalar(i)
    if np.isscalar(i) and isinstance(v, np.ndarray) and v.size == 1:
        v = v.ravel()[0]
    if isinstance(v, str) or v is None or isinstance(v, (list, dict, tuple)) and np.isscalar(i) or callable(v):
        need = object
    elif scalar:
        need = _infer([v]).dtype
    else:
        v = _array(v)
        need = v.dtype
    if a.dtype != need and a.dtype != object:
        if need == object and v is None and a.dtype.kind == "f":
            v = np.nan
        elif need == object:
            a = _obj([_box(a, k) for k in range(len(a))])
        elif a.dtype.kind in "iu" and np.dtype(need).kind == "f":
            if scalar and float(v) == int(v if not np.isnan(v) else 0) and not np.isnan(v):
                pass
            else:
                a = a.astype(float)
        elif a.dtype.kind == "b" and np.dtype(need).kind != "b":
            a = _obj(list(a))
        elif a.dtype.kind in "f" and np.dtype(need).kind in "iu":
            pass
        elif a.dtype.kind == "M" or np.dtype(need).kind == "M":
            if a.dtype.kind != np.dtype(need).kind:
                a = _obj([_box(a, k) for k in range(len(a))])
    a = a.copy()
    if a.dtype == object and scalar and not np.isscalar(i):
        for k in np.arange(len(a))[i]:
            a[k] = v
    elif a.dtype.kind == "M" and scalar:
        a[i] = np.datetime64(_py(v), "ns") if not _isna1(v) else np.datetime64("NaT")
    elif a.dtype == object and np.isscalar(i):
        a[i] = v
    else:
        a[i] = v
    return a


# ------------------------------------------------------------------ indexes
class Index(_Missing):
    def __new__(cls, data=(), *a, **k):
        if cls is Index:
            d = list(data._l) if isinstance(data, Index) else list(data)
            if isinstance(data, (DatetimeIndex, MultiIndex)):
                return data
            if d and all(isinstance(x, tuple) for x in d):
                return MultiIndex.from_tuples(d)
            if d and all(isinstance(x, (_dt.datetime, np.datetime64)) for x in d):
                return DatetimeIndex(d)
        return object.__new__(cls)

    def __init__(self, data=(), name=None, names=None, **kw):
        if isinstance(data, Index) and data is self:
            return
        if isinstance(data, Index):
            if name is None:
                name = data.name
            data = data._l
        if isinstance(data, Series):
            data = list(data)
        self._l = [x.item() if isinstance(x, np.generic) and not isinstance(x, (np.datetime64, np.timedelta64)) else x
                   for x in data]
        self.name = name

    @property
    def names(self):
        return [self.name]

    @names.setter
    def names(self, v):
        self.name = list(v)[0]

    nlevels = 1

    @property
    def values(self):
        return _infer(self._l)

    def to_numpy(self, dtype=None):
        v = self.values
        return v if dtype is None else v.astype(dtype)

    def __array__(self, dtype=None, copy=None):
        v = self.values
        return v if dtype is None else v.astype(dtype)

    @property
    def dtype(self):
        return self.values.dtype

    @property
    def shape(self):
        return (len(self._l),)

    @property
    def size(self):
        return len(self._l)

    @property
    def empty(self):
        return not self._l

    def __len__(self):
        return len(self._l)

    def __iter__(self):
        return iter(self._l)

    def __contains__(self, k):
        try:
            return k in self._l
        except TypeError:
            return False

    def __getitem__(self, i):
        if isinstance(i, (int, np.integer)):
            return self._l[int(i)]
        if isinstance(i, slice):
            return self._new(self._l[i])
        if isinstance(i, Series):
            i = i._v
        return self._new([self._l[j] for j in np.arange(len(self._l))[np.asarray(i)]])

    def _new(self, l):
        return Index(l, name=self.name)

    def get_loc(self, k):
        h = [i for i, x in enumerate(self._l) if type(x) is type(k) and x == k or not isinstance(k, tuple) and x == k]
        if not h:
            raise KeyError(k)
        return h[0] if len(h) == 1 else _span(h, len(self._l))

    def locs(self, k):
        h = [i for i, x in enumerate(self._l) if x == k]
        if not h:
            raise KeyError(k)
        return h

    def tolist(self):
        return list(self._l)

    to_list = tolist

    def astype(self, t):
        if t is str or t == "str":
            return Index([str(x) for x in self._l], name=self.name)
        return Index([np.dtype(t).type(x).item() for x in self._l], name=self.name)

    def isin(self, v):
        s = list(v)
        if len(s) > 20 and type(self) is type(v) is DatetimeIndex:
            s = set(s)
        return np.array([x in s for x in self._l], dtype=bool)

    def duplicated(self, keep="first"):
        seen, r = set(), np.zeros(len(self._l), dtype=bool)
        if keep not in ("first", "last"):
            missing("Index.duplicated keep=%r" % (keep,))
        for k in (range(len(self._l)) if keep == "first" else range(len(self._l) - 1, -1, -1)):
            r[k] = self._l[k] in seen
            seen.add(self._l[k])
        return r

    def unique(self):
        return self._new(list(dict.fromkeys(self._l)))

    @property
    def is_unique(self):
        return len(set(self._l)) == len(self._l)

    def _cmp(self, o, f):
        if isinstance(o, (Index, Series, list, np.ndarray)):
            return np.array([f(a, b) for a, b in zip(self._l, list(o))], dtype=bool)
        return np.array([f(a, o) for a in self._l], dtype=bool)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    __hash__ = None

    def _ar(self, o, f):
        if isinstance(o, (Index, Series, list, np.ndarray)):
            return Index([f(a, b) for a, b in zip(self._l, list(o))], name=self.name)
        return Index([f(a, o) for a in self._l], name=self.name)

    def __add__(self, o):
        return self._ar(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._ar(o, lambda a, b: a - b)

    def __mul__(self, o):
        return self._ar(o, lambda a, b: a * b)

    def __truediv__(self, o):
        return self._ar(o, lambda a, b: a / b)

    def __floordiv__(self, o):
        return self._ar(o, lambda a, b: a // b)

    def __radd__(self, o):
        return self._ar(o, lambda a, b: b + a)

    def __rsub__(self, o):
        return self._ar(o, lambda a, b: b - a)

    __rmul__ = __mul__

    def equals(self, o):
        return isinstance(o, Index) and self._l == o._l

    def min(self):
        return builtins.min(self._l)

    def max(self):
        return builtins.max(self._l)

    def copy(self):
        return self._new(list(self._l))

    def drop(self, labels):
        labels = labels if isinstance(labels, (list, Index)) else [labels]
        return self._new([x for x in self._l if x not in list(labels)])

    def intersection(self, o):
        s = list(o)
        return self._new([x for x in self._l if x in s])

    def rename(self, name):
        r = self.copy()
        r.name = name
        return r

    def to_series(self):
        return Series(self.values, index=self)

    def map(self, f):
        return Index([f(x) for x in self._l])

    def __repr__(self):
        return "%s(%r)" % (type(self).__name__, self._l)


class RangeIndex(Index):
    def __new__(cls, *a, **k):
        return object.__new__(cls)

    def __init__(self, start=0, stop=None, step=1, name=None, **kw):
        if stop is None:
            start, stop = 0, start
        self._l = list(range(start, stop, step))
        self.name = name


def _span(h, n):
    if h == list(range(h[0], h[-1] + 1)):
        return slice(h[0], h[-1] + 1, None)
    m = np.zeros(n, dtype=bool)
    m[h] = True
    return m


class MultiIndex(Index):
    def __new__(cls, *a, **k):
        return object.__new__(cls)

    def __init__(self, tuples=(), names=None, **kw):
        self._l = [tuple(t) for t in tuples]
        self._names = list(names) if names else [None] * (len(self._l[0]) if self._l else 2)

    name = None

    @property
    def names(self):
        return self._names

    @names.setter
    def names(self, v):
        self._names = list(v)

    @property
    def nlevels(self):
        return len(self._l[0]) if self._l else 2

    @classmethod
    def from_tuples(cls, t, names=None):
        return cls(t, names=names)

    @classmethod
    def from_arrays(cls, a, names=None):
        a = [list(x) for x in a]
        return cls(list(zip(*a)), names=names)

    @classmethod
    def from_product(cls, a, names=None):
        import itertools
        return cls(list(itertools.product(*a)), names=names)

    @property
    def values(self):
        return _obj(self._l)

    def _new(self, l):
        return MultiIndex(l, names=self._names)

    def get_level_values(self, i):
        if isinstance(i, str):
            i = self._names.index(i)
        return Index([t[i] for t in self._l], name=self._names[i])

    def get_loc(self, k):
        h = self.locs(k)
        if isinstance(k, tuple) and len(k) == self.nlevels and len(h) == 1:
            return h[0]
        return _span(h, len(self._l))

    def locs(self, k):
        if isinstance(k, tuple):
            h = [i for i, x in enumerate(self._l) if x[:len(k)] == k]
        else:
            h = [i for i, x in enumerate(self._l) if x[0] == k]
        if not h:
            raise KeyError(k)
        return h

    def __contains__(self, k):
        try:
            self.locs(k)
            return True
        except (KeyError, TypeError):
            return False

    def droplevel(self, level=0):
        r = [t[:level] + t[level + 1:] for t in self._l]
        return Index([t[0] for t in r]) if r and len(r[0]) == 1 else MultiIndex(r)

    def isin(self, v, level=None):
        if level is not None:
            return self.get_level_values(level).isin(v)
        s = list(v)
        return np.array([x in s for x in self._l], dtype=bool)


_SLICEN = {"D": Timedelta(days=1), "d": Timedelta(days=1), "h": Timedelta(hours=1), "H": Timedelta(hours=1),
           "min": Timedelta(minutes=1)}


class DatetimeIndex(Index):
    def __new__(cls, *a, **k):
        return object.__new__(cls)

    def __init__(self, data=(), name=None, freq=None, **kw):
        if isinstance(data, Series):
            data = data._v
        elif isinstance(data, Index):
            data = data._l
        self._l = [x if isinstance(x, Timestamp) else (NaT if _isna1(x) else Timestamp(x)) for x in data]
        self.name = name
        self.freq = freq

    @property
    def values(self):
        return np.array([np.datetime64("NaT") if x is NaT else np.datetime64(x.to_pydatetime(), "ns") for x in self._l],
                        dtype="datetime64[ns]")

    def _new(self, l):
        return DatetimeIndex(l, name=self.name)

    def _f(self, f):
        return Index([f(x) for x in self._l])

    year = property(lambda s: s._f(lambda x: x.year))
    month = property(lambda s: s._f(lambda x: x.month))
    day = property(lambda s: s._f(lambda x: x.day))
    hour = property(lambda s: s._f(lambda x: x.hour))
    dayofyear = property(lambda s: s._f(lambda x: x.dayofyear))
    day_of_year = dayofyear
    date = property(lambda s: _obj([x.date() for x in s._l]))

    def to_julian_date(self):
        return self._f(lambda x: x.to_julian_date())

    def strftime(self, f):
        return self._f(lambda x: x.strftime(f))

    def normalize(self):
        return self._new([x.normalize() for x in self._l])

    def to_pydatetime(self):
        return _obj([x.to_pydatetime() for x in self._l])

    def _c(self, o):
        return Timestamp(o) if isinstance(o, (str, np.datetime64, _dt.datetime)) else o

    def _cmp(self, o, f):
        return Index._cmp(self, self._c(o), f)

    def __contains__(self, k):
        try:
            return Timestamp(k) in self._l
        except Exception:
            return False

    def locs(self, k):
        return Index.locs(self, Timestamp(k))

    def get_loc(self, k):
        return self.locs(k)[0]

    def get_indexer(self, target, method=None, **kw):
        if kw or method not in (None, "nearest", "pad", "ffill", "backfill", "bfill"):
            missing("get_indexer(%s)" % (method or ",".join(kw)))
        v, out = self._l, []
        if len(set(v)) != len(v) or any(x is NaT for x in v) or method and v != sorted(v):
            missing("get_indexer on such an index")
        place = {x: i for i, x in enumerate(v)}
        for t in target:
            t = Timestamp(t)
            i = place.get(t, -1)
            if i < 0 and method:
                lo = builtins.max((j for j, x in enumerate(v) if x < t), default=-1)
                hi = lo + 1 if lo + 1 < len(v) else -1
                if method in ("pad", "ffill") or method == "nearest" and hi < 0:
                    i = lo
                elif method in ("backfill", "bfill") or lo < 0:
                    i = hi
                else:
                    i = lo if t - v[lo] < v[hi] - t else hi
            out.append(i)
        return np.array(out, dtype=int)

    def __sub__(self, o):
        if isinstance(o, (_dt.datetime, np.datetime64)):
            o = Timestamp(o)
            return TimedeltaIndex([x - o for x in self._l])
        if isinstance(o, Index):
            return TimedeltaIndex([x - y for x, y in zip(self._l, o._l)])
        return self._new([x - o for x in self._l])

    def __add__(self, o):
        return self._new([x + o for x in self._l])

    def astype(self, t):
        if t is str:
            return Index([str(x.date()) if x == x.normalize() else str(x) for x in self._l])
        if str(t).startswith(("int", "datetime64", "<M8")) or t is int:
            return self.values.astype(t)
        missing("DatetimeIndex.astype(%s)" % t)


class TimedeltaIndex(Index):
    def __new__(cls, *a, **k):
        return object.__new__(cls)

    days = property(lambda s: Index([x.days for x in s._l]))

    @property
    def values(self):
        return np.array([np.timedelta64(x) for x in self._l], dtype="timedelta64[ns]")

    def total_seconds(self):
        return Index([x.total_seconds() for x in self._l])


def date_range(start=None, end=None, periods=None, freq="D", **kw):
    start = None if start is None else Timestamp(start)
    end = None if end is None else Timestamp(end)
    out = []
    freq = freq or "D"
    m = re.fullmatch(r"(\d*)(D|d|h|H|min|T|MS|YS|AS|ME|M|YE|Y)", freq if isinstance(freq, str) else "")
    if not m:
        if isinstance(freq, _dt.timedelta):
            step = lambda t: t + freq
        else:
            missing("date_range(freq=%r)" % (freq,))
    else:
        n, u = int(m.group(1) or 1), m.group(2)
        if u in _SLICEN:
            step = lambda t: t + n * _SLICEN[u]
        elif u == "T":
            step = lambda t: t + n * _SLICEN["min"]
        elif u in ("MS", "YS", "AS"):
            off = DateOffset(months=n) if u == "MS" else DateOffset(years=n)
            first = Timestamp(start.year, start.month if u == "MS" else 1, 1)
            first = first + _dt.timedelta(hours=start.hour, minutes=start.minute, seconds=start.second)
            if first < start:
                first = first + (DateOffset(months=1) if u == "MS" else DateOffset(years=1))
            start = first
            step = lambda t: t + off
        else:
            missing("date_range(freq=%r)" % freq)
    if start is None:
        missing("date_range without start")
    t = start
    while (periods is None and t <= end) or (periods is not None and len(out) < periods):
        out.append(t)
        t = step(t)
    return DatetimeIndex(out, freq=freq)


def to_datetime(v, format=None, errors="raise", **kw):
    def one(x):
        if _isna1(x):
            return NaT
        try:
            return Timestamp(_parse(x, format)) if isinstance(x, str) else Timestamp(x)
        except ValueError:
            if errors == "coerce":
                return NaT
            raise
    if kw:
        if set(kw) == {"dayfirst"} and format is None:
            def one(x):
                if _isna1(x):
                    return NaT
                m = re.fullmatch(r"\s*(\d{1,2})[./-](\d{1,2})[./-](\d{4})\s*", x)
                try:
                    if m and kw["dayfirst"]:
                        return Timestamp(int(m.group(3)), int(m.group(2)), int(m.group(1)))
                    if re.search(r"\d", x) and not re.search(r"yyyy|observ|glacier|citation|version", x.lower()):
                        missing("to_datetime(%r, dayfirst)" % x)
                    raise ValueError("Unknown datetime string format, unable to parse: %s" % x)
                except ValueError:
                    if errors == "coerce":
                        return NaT
                    raise
        else:
            missing("to_datetime(%s)" % ",".join(kw))
    if isinstance(v, dict):
        given = list(v.values())
        n = builtins.max(len(x) for x in given if not np.isscalar(x))
        v = {k: [x] * n if np.isscalar(x) else list(x) for k, x in v.items()}
        def stamp(i):
            if any(_isna1(x[i]) or x[i] != int(x[i]) for x in v.values()):
                if errors == "coerce":
                    return NaT
                missing("to_datetime(dict with missing values)")
            try:
                return Timestamp(int(v["year"][i]), int(v["month"][i]), int(v["day"][i]),
                                 int(v.get("hour", [0] * n)[i]), int(v.get("minute", [0] * n)[i]))
            except ValueError:
                if errors == "coerce":
                    return NaT
                raise
        index = next((x.index for x in given if isinstance(x, Series)), None)
        return Series(_infer([stamp(i) for i in range(n)]), index=index)
    if isinstance(v, Series):
        return Series(_infer([one(x) for x in v]), index=v.index, name=v.name)
    if isinstance(v, (list, tuple, np.ndarray, Index)):
        return DatetimeIndex([one(x) for x in v])
    return one(v)


def to_numeric(v, errors="raise", **kw):
    def one(x):
        if x is None:
            return np.nan
        try:
            f = float(x)
            return int(f) if isinstance(x, str) and re.fullmatch(r"\s*[+-]?\d+\s*", x) else (
                x if isinstance(x, (int, np.integer)) else f)
        except (TypeError, ValueError):
            if errors == "coerce":
                return np.nan
            raise ValueError("Unable to parse string %r" % (x,))
    if isinstance(v, Series):
        return Series(_infer([one(x) for x in v]), index=v.index, name=v.name)
    if isinstance(v, (list, np.ndarray, Index)):
        return _infer([one(x) for x in v])
    return one(v)


# ------------------------------------------------------------------ Series
def _mkindex(ix, n):
    if ix is None:
        return RangeIndex(n)
    return ix if isinstance(ix, Index) else Index(ix)


def _elem(a, b, f):
    return _infer([f(x, y) for x, y in zip(a, b)])


class Series(_Missing):
    __array_priority__ = 1000

    def __init__(self, data=None, index=None, name=None, dtype=None, copy=None):
        if isinstance(data, dict):
            if index is None:
                index = Index(list(data))
                data = _infer(data.values())
            else:
                data = _infer([data.get(k, np.nan) for k in index])
        elif isinstance(data, Series):
            if index is None:
                index = data.index
            if name is None:
                name = data.name
            data = data._v.copy()
        elif data is None:
            data = _array(np.nan, len(index) if index is not None else 0)
        else:
            data = _array(data, len(index) if index is not None else None)
        if dtype is not None:
            data = data.astype(dtype)
        self._v = data
        self._i = _mkindex(index, len(data))
        self.name = name

    # -- basics
    @property
    def index(self):
        return self._i

    @index.setter
    def index(self, v):
        self._i = _mkindex(v, len(self._v))

    @property
    def values(self):
        return self._v

    def to_numpy(self, dtype=None, **kw):
        return self._v if dtype is None else self._v.astype(dtype)

    def __array__(self, dtype=None, copy=None):
        return self._v if dtype is None else self._v.astype(dtype)

    dtype = property(lambda s: s._v.dtype)
    shape = property(lambda s: s._v.shape)
    size = property(lambda s: s._v.size)
    empty = property(lambda s: len(s._v) == 0)
    ndim = 1

    def __len__(self):
        return len(self._v)

    def __iter__(self):
        return iter([_box(self._v, i) if self._v.dtype.kind in "mM" else x for i, x in
                     enumerate(self._v.tolist() if self._v.dtype.kind not in "mM" else self._v)])

    def __contains__(self, k):
        return k in self._i

    def keys(self):
        return self._i

    def items(self):
        return zip(self._i, self)

    def get(self, k, default=None):
        try:
            return self[k]
        except KeyError:
            return default

    def tolist(self):
        return list(self)

    to_list = tolist

    def copy(self, deep=True):
        return Series(self._v.copy(), index=self._i, name=self.name)

    def to_csv(self, path, **k):
        return (self if self.name is not None else self.rename("0")).to_frame().to_csv(path, **k)

    def to_frame(self, name=None):
        return DataFrame._make([self._v.copy()], Index([name if name is not None else
                                                        (self.name if self.name is not None else 0)]), self._i)

    def to_dict(self):
        return dict(zip(self._i, self))

    def _take(self, ii):
        return Series(self._v[ii], index=self._i[ii], name=self.name)

    def _mask(self, k):
        if isinstance(k, Series):
            k = k._v
        if isinstance(k, Index):
            return None
        if isinstance(k, list) and k and all(isinstance(x, (bool, np.bool_)) for x in k):
            k = np.array(k)
        if isinstance(k, np.ndarray) and (k.dtype == bool or k.dtype == object and k.size and
                                         all(isinstance(x, (bool, np.bool_)) for x in k)):
            return k.astype(bool)
        return None

    def __getitem__(self, k):
        m = self._mask(k)
        if m is not None:
            return self._take(np.nonzero(m)[0])
        if isinstance(k, slice):
            return self._take(np.arange(len(self._v))[k])
        if isinstance(k, (list, np.ndarray, Index)):
            h = [j for x in k for j in self._i.locs(x)]
            return self._take(np.array(h, dtype=int))
        try:
            h = self._i.locs(k)
        except KeyError:
            if isinstance(k, (int, np.integer)) and not any(isinstance(x, int) for x in self._i._l):
                return _box(self._v, int(k))
            raise
        if isinstance(self._i, MultiIndex) and not (isinstance(k, tuple) and len(k) == self._i.nlevels):
            n = len(k) if isinstance(k, tuple) else 1
            sub = [t[n:] for t in (self._i._l[j] for j in h)]
            ix = Index([t[0] for t in sub]) if len(sub[0]) == 1 else MultiIndex(sub)
            v = self._v[h]
            return Series(_infer(list(v)) if v.dtype == object else v, index=ix, name=self.name)
        return _box(self._v, h[0]) if len(h) == 1 else self._take(np.array(h))

    def __setitem__(self, k, v):
        m = self._mask(k)
        if m is not None:
            self._v = _set(self._v, np.nonzero(m)[0], v)
            return
        if isinstance(k, slice):
            self._v = _set(self._v, k, v)
            return
        try:
            h = self._i.locs(k)
            self._v = _set(self._v, h[0] if len(h) == 1 else np.array(h), v)
        except KeyError:
            self._v = np.append(_obj(list(self)) if not isinstance(v, (int, float)) else self._v, _infer([v]))
            self._i = Index(list(self._i) + [k])

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        if n in self._i:
            return self[n]
        if n not in REAL:
            raise NoSuchColumn("'Series' object has no attribute %r" % n)
        missing("Series." + n)

    @property
    def loc(self):
        return _SLoc(self)

    @property
    def iloc(self):
        return _SILoc(self)

    at = loc
    iat = iloc

    # -- arithmetic (aligned on position when the indexes are equal)
    def _other(self, o):
        if isinstance(o, Series):
            if len(o) == len(self) and o._i._l == self._i._l:
                return o._v
            if set(map(str, o._i._l)) == set(map(str, self._i._l)) and len(o) == len(self):
                return np.array([o[k] for k in self._i])
            if len(o) != len(self):
                missing("alignment of different Series")
            return o._v
        if isinstance(o, DataFrame):
            return NotImplemented
        if isinstance(o, Index):
            return o.values
        if isinstance(o, list):
            return _infer(o)
        return o

    def _bin(self, o, f, cmp=False):
        o = self._other(o)
        if o is NotImplemented:
            return o
        v = self._v
        if v.dtype.kind == "M":
            if isinstance(o, str):
                o = Timestamp(o)
            if isinstance(o, _dt.datetime):
                o = np.datetime64(_py(o), "ns")
            elif isinstance(o, _dt.timedelta):
                o = np.timedelta64(int(o.total_seconds() * 1e9), "ns")
            elif isinstance(o, DateOffset):
                return Series(_infer([NaT if _isna1(x) else f(Timestamp(x), o) for x in v]), index=self._i, name=self.name)
        if v.dtype == object or isinstance(o, np.ndarray) and o.dtype == object:
            b = o if isinstance(o, np.ndarray) else [o] * len(v)
            if cmp:
                r = np.array([bool(f(x, y)) if not (_isna1(x) or _isna1(y)) else f is np.not_equal or
                              getattr(f, "ne", False) for x, y in zip(v, b)], dtype=bool)
            else:
                r = _infer([f(x, y) if x is not None else np.nan for x, y in zip(v, b)])
        else:
            if isinstance(o, str) or o is None:
                r = np.full(len(v), getattr(f, "ne", False)) if cmp else missing("arithmetic with str")
            else:
                with np.errstate(all="ignore"):
                    r = f(v, o)
        return Series(r, index=self._i, name=self.name)

    def __repr__(self):
        return "Series(%r, index=%r)" % (list(self._v), self._i._l)

    __hash__ = None

    def __bool__(self):
        raise ValueError("The truth value of a Series is ambiguous.")

    def __float__(self):
        if len(self) != 1:
            raise TypeError("cannot convert the series to float")
        return float(self._v[0])

    def __int__(self):
        if len(self) != 1:
            raise TypeError("cannot convert the series to int")
        return int(self._v[0])

    def __neg__(self):
        return Series(-self._v, index=self._i, name=self.name)

    def __invert__(self):
        return Series(~self._v.astype(bool), index=self._i, name=self.name)

    def __abs__(self):
        return Series(abs(self._v), index=self._i, name=self.name)

    abs = __abs__

    # -- reductions
    def _num(self):
        v = self._v
        if v.dtype == object:
            v = np.array([np.nan if _isna1(x) else x for x in v], dtype=float)
        return v

    def _red(self, f):
        v = self._v
        if v.dtype.kind == "M":
            w = v[~np.isnat(v)]
            return Timestamp(f(w)) if len(w) else NaT
        v = self._num()
        if v.dtype.kind == "f":
            v = v[~np.isnan(v)]
        if not len(v) and f is not np.sum:
            return np.nan
        r = f(v)
        return r.item() if isinstance(r, np.generic) and False else r

    def sum(self, axis=None, **k):
        return self._red(np.sum)

    def mean(self, axis=None, **k):
        return self._red(np.mean)

    def min(self, axis=None, **k):
        return self._red(np.min)

    def max(self, axis=None, **k):
        return self._red(np.max)

    def median(self, **k):
        return self._red(np.median)

    def std(self, ddof=1, **k):
        return self._red(lambda v: np.std(v, ddof=ddof))

    def any(self, **k):
        return bool(np.any(self._v.astype(bool)))

    def all(self, **k):
        return bool(np.all(self._v.astype(bool)))

    def count(self):
        return int((~_isna_arr(self._v)).sum())

    def cumsum(self):
        return Series(np.cumsum(self._v), index=self._i, name=self.name)

    def diff(self, n=1):
        v = self._num().astype(float)
        return Series(np.concatenate([[np.nan] * n, v[n:] - v[:-n]]), index=self._i, name=self.name)

    def idxmax(self):
        return self._i[int(np.nanargmax(self._num()))]

    def idxmin(self):
        return self._i[int(np.nanargmin(self._num()))]

    def isna(self):
        return Series(_isna_arr(self._v), index=self._i, name=self.name)

    isnull = isna

    def notna(self):
        return ~self.isna()

    notnull = notna

    def dropna(self):
        return self._take(np.nonzero(~_isna_arr(self._v))[0])

    def fillna(self, x):
        return Series([x if _isna1(v) else v for v in self], index=self._i, name=self.name)

    def astype(self, t):
        if t is str or t == "str":
            return Series(_obj([str(x) for x in self]), index=self._i, name=self.name)
        if t is object or t == "object":
            return Series(_obj(list(self)), index=self._i, name=self.name)
        return Series(self._v.astype(t), index=self._i, name=self.name)

    def unique(self):
        return _infer(list(dict.fromkeys(list(self))))

    def nunique(self):
        return len(dict.fromkeys(list(self)))

    def isin(self, v):
        s = list(v)
        return Series(np.array([x in s for x in self], dtype=bool), index=self._i, name=self.name)

    def apply(self, f, args=(), **k):
        return Series(_infer([f(x, *args, **k) for x in self]), index=self._i, name=self.name)

    map = apply

    def squeeze(self, *a):
        return _box(self._v, 0) if len(self) == 1 else self

    def reset_index(self, drop=False, **k):
        if not drop:
            missing("Series.reset_index")
        return Series(self._v.copy(), name=self.name)

    def sort_values(self, ascending=True, **k):
        o = np.argsort(self._v, kind="stable")
        return self._take(o if ascending else o[::-1])

    def sort_index(self, **k):
        return self._take(np.array(sorted(range(len(self)), key=lambda j: self._i._l[j])))

    def head(self, n=5):
        return self._take(np.arange(len(self))[:n])

    def tail(self, n=5):
        return self._take(np.arange(len(self))[-n:])

    def clip(self, lower=None, upper=None):
        return Series(np.clip(self._v, lower, upper), index=self._i, name=self.name)

    def round(self, n=0):
        return Series(np.round(self._v, n), index=self._i, name=self.name)

    def equals(self, o):
        return isinstance(o, Series) and self._i._l == o._i._l and all(
            a == b or (_isna1(a) and _isna1(b)) for a, b in zip(self, o))

    def rename(self, n):
        r = self.copy()
        r.name = n
        return r

    def where(self, cond, other=np.nan):
        c = np.asarray(cond)
        return Series(_infer([a if k else other for a, k in zip(self, c)]), index=self._i, name=self.name)

    def reindex(self, index=None, **k):
        if k:
            missing("Series.reindex %s" % sorted(k))
        at = {}
        for j, x in enumerate(self._i):
            if x in at:
                raise ValueError("cannot reindex on an axis with duplicate labels")
            at[x] = j
        ix = index if isinstance(index, Index) else Index(index)
        if all(x in at for x in ix):
            v = self._v[[at[x] for x in ix]]
        else:
            v = _infer([_box(self._v, at[x]) if x in at else np.nan for x in ix])
        return Series(v, index=ix, name=self.name)

    def groupby(self, *a, **k):
        missing("Series.groupby")

    def rolling(self, window, min_periods=None, center=False, **k):
        if k or not isinstance(window, int):
            missing("Series.rolling(%r)" % (k,))
        return _Rolling(self, window, window if min_periods is None else min_periods, center)

    @property
    def dt(self):
        return _Dt(self)

    @property
    def str(self):
        return _Str(self)


class _Dt(_Missing):
    def __init__(self, s):
        if s._v.dtype.kind not in "mM":
            raise AttributeError("Can only use .dt accessor with datetimelike values")
        self._s = s

    def _f(self, f):
        return Series(_infer([f(x) for x in self._s]), index=self._s._i)

    year = property(lambda s: s._f(lambda x: x.year))
    month = property(lambda s: s._f(lambda x: x.month))
    day = property(lambda s: s._f(lambda x: x.day))
    hour = property(lambda s: s._f(lambda x: x.hour))
    dayofyear = property(lambda s: s._f(lambda x: x.dayofyear))
    day_of_year = dayofyear
    days = property(lambda s: s._f(lambda x: x.days))
    date = property(lambda s: s._f(lambda x: x.date()))

    def strftime(self, f):
        return self._f(lambda x: x.strftime(f))

    def total_seconds(self):
        return self._f(lambda x: x.total_seconds())

    def normalize(self):
        return self._f(lambda x: x.normalize())


class _Str(_Missing):
    def __init__(self, s):
        self._s = s

    def _f(self, f):
        return Series(_infer([f(x) for x in self._s]), index=self._s._i)

    def lower(self):
        return self._f(lambda x: x.lower())

    def upper(self):
        return self._f(lambda x: x.upper())

    def strip(self, c=None):
        return self._f(lambda x: x.strip(c))

    def startswith(self, p):
        return self._f(lambda x: x.startswith(p))

    def contains(self, p, **k):
        return self._f(lambda x: p in x)


def _bind_ops():
    import operator as op

    def ne(a, b):
        return op.ne(a, b)
    ne.ne = True
    for n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow"):
        f = getattr(op, n)
        setattr(Series, "__%s__" % n, lambda s, o, f=f: s._bin(o, f))
        setattr(Series, "__r%s__" % n, lambda s, o, f=f: s._bin(o, lambda a, b: f(b, a)))
        setattr(DataFrame, "__%s__" % n, lambda s, o, f=f: s._bin(o, f))
        setattr(DataFrame, "__r%s__" % n, lambda s, o, f=f: s._bin(o, lambda a, b: f(b, a)))
    for n in ("lt", "le", "gt", "ge", "eq"):
        f = getattr(op, n)
        setattr(Series, "__%s__" % n, lambda s, o, f=f: s._bin(o, f, True))
        setattr(DataFrame, "__%s__" % n, lambda s, o, f=f: s._bin(o, f, True))
    Series.__ne__ = lambda s, o: s._bin(o, ne, True)
    DataFrame.__ne__ = lambda s, o: s._bin(o, ne, True)
    for n in ("and", "or", "xor"):
        f = getattr(op, n + "_" if n != "xor" else n)
        g = lambda s, o, f=f: s._bin(o, lambda a, b: f(np.asarray(a).astype(bool), np.asarray(b).astype(bool)))
        for m in ("__%s__" % n, "__r%s__" % n):
            setattr(Series, m, g)
            setattr(DataFrame, m, g)
    Series.__hash__ = None
    DataFrame.__hash__ = None


class _SLoc:
    def __init__(self, s):
        self.s = s

    def __getitem__(self, k):
        if isinstance(k, slice) and (k.start is not None or k.stop is not None):
            l = self.s._i._l
            a = 0 if k.start is None else self.s._i.locs(k.start)[0]
            b = len(l) if k.stop is None else self.s._i.locs(k.stop)[-1] + 1
            return self.s._take(np.arange(a, b))
        return self.s[k]

    def __setitem__(self, k, v):
        self.s[k] = v


class _SILoc:
    def __init__(self, s):
        self.s = s

    def __getitem__(self, k):
        if isinstance(k, (int, np.integer)):
            return _box(self.s._v, int(k))
        if isinstance(k, slice):
            return self.s._take(np.arange(len(self.s))[k])
        return self.s._take(np.arange(len(self.s))[np.asarray(k)])

    def __setitem__(self, k, v):
        self.s._v = _set(self.s._v, k, v)


# ------------------------------------------------------------------ DataFrame
class DataFrame(_Missing):
    __array_priority__ = 1000

    def __init__(self, data=None, index=None, columns=None, dtype=None, copy=None):
        cols, names = [], None
        if columns is not None and not isinstance(columns, Index):
            columns = Index(list(columns))
        if isinstance(data, DataFrame):
            cols = [c.copy() for c in data._cols]
            names = data._names
            index = data._i if index is None else index
            if columns is not None:
                s = DataFrame._make(cols, names, data._i)
                s = s[list(columns)]
                cols, names = s._cols, s._names
        elif isinstance(data, dict):
            keys = list(data) if columns is None else list(columns)
            names = Index(keys) if columns is None else columns
            ser = [data[k]._i for k in keys if k in data and isinstance(data[k], Series)]
            if index is not None:
                index = _mkindex(index, None)
                n = len(index)
            elif ser:
                index = ser[0]
                n = len(index)
            else:
                n = builtins.max([len(v) for v in data.values() if isinstance(v, (list, tuple, np.ndarray, range, Index))]
                                 or [1 if data else 0])
            for k in keys:
                cols.append(_array(data[k], n) if k in data else np.full(n, np.nan))
        elif data is None:
            names = columns if columns is not None else Index([])
            index = _mkindex(index, 0) if index is not None else Index([])
            cols = [np.full(len(index), np.nan) if len(index) else np.empty(0, dtype=object) for _ in names]
        else:
            if isinstance(data, Series):
                data, index = data.to_frame(), data._i if index is None else index
                cols, names = data._cols, columns if columns is not None else data._names
            elif isinstance(data, (list, tuple)) and data and isinstance(data[0], dict):
                names = columns if columns is not None else Index(list(dict.fromkeys(k for r in data for k in r)))
                cols = [_infer([r.get(k, np.nan) for r in data]) for k in names]
            elif isinstance(data, (list, tuple)) and data and isinstance(data[0], (list, tuple)):
                n = builtins.max(len(r) for r in data)
                cols = [_infer([r[j] for r in data]) for j in range(n)]
                names = columns
            elif isinstance(data, (list, tuple)) and data and isinstance(data[0], Series):
                f = concat([s.to_frame().T for s in data])
                cols, names, index = f._cols, f._names, f._i if index is None else index
            else:
                a = np.asarray(data)
                if a.dtype.kind in "US":
                    a = a.astype(object)
                if a.ndim == 1:
                    cols = [_array(data)] if a.size or columns is None or len(columns) == 1 else \
                        [np.empty(0, dtype=object) for _ in columns]
                elif a.ndim == 2:
                    cols = [a[:, j].copy() for j in range(a.shape[1])]
                else:
                    raise ValueError("Must pass 2-d input.")
                names = columns
        if names is None:
            names = RangeIndex(len(cols))
        if len(names) != len(cols):
            raise ValueError("%d columns passed, passed data had %d columns" % (len(names), len(cols)))
        n = len(cols[0]) if cols else (len(index) if index is not None else 0)
        object.__setattr__(self, "_cols", cols)
        object.__setattr__(self, "_names", names)
        object.__setattr__(self, "_i", _mkindex(index, n))
        for c in cols:
            if len(c) != len(self._i):
                raise ValueError("Length of values (%d) does not match length of index (%d)" % (len(c), len(self._i)))
        if dtype is not None:
            object.__setattr__(self, "_cols", [c.astype(dtype) for c in self._cols])

    @staticmethod
    def _make(cols, names, index):
        d = DataFrame.__new__(DataFrame)
        object.__setattr__(d, "_cols", list(cols))
        object.__setattr__(d, "_names", names if isinstance(names, Index) else Index(names))
        object.__setattr__(d, "_i", index)
        return d

    @classmethod
    def from_dict(cls, data, orient="columns", columns=None, **k):
        if orient == "columns":
            return cls(data, columns=columns)
        keys = list(data)
        rows = [data[q] for q in keys]
        if rows and isinstance(rows[0], dict):
            names = list(columns) if columns is not None else list(dict.fromkeys(c for r in rows for c in r))
            rows = [[r.get(c, np.nan) for c in names] for r in rows]
            columns = names
        return cls(rows, index=keys, columns=columns)

    # -- basics
    @property
    def columns(self):
        return self._names

    @columns.setter
    def columns(self, v):
        v = v if isinstance(v, Index) else Index(list(v))
        if len(v) != len(self._cols):
            raise ValueError("Length mismatch")
        object.__setattr__(self, "_names", v)

    @property
    def index(self):
        return self._i

    @index.setter
    def index(self, v):
        object.__setattr__(self, "_i", _mkindex(v, None))

    def __setattr__(self, k, v):
        if k in ("columns", "index", "attrs"):
            object.__setattr__(self, k, v)
        elif k in self._names:
            self[k] = v
        else:
            object.__setattr__(self, k, v)

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        if n in self._names:
            return self[n]
        if n == "attrs":
            object.__setattr__(self, "attrs", {})
            return self.__dict__["attrs"]
        if n not in REAL:
            raise NoSuchColumn("'DataFrame' object has no attribute %r" % n)
        missing("DataFrame." + n)

    shape = property(lambda s: (len(s._i), len(s._cols)))
    size = property(lambda s: len(s._i) * len(s._cols))
    empty = property(lambda s: not len(s._i) or not s._cols)
    ndim = 2

    def __len__(self):
        return len(self._i)

    def __iter__(self):
        return iter(self._names)

    def __contains__(self, k):
        return k in self._names

    def keys(self):
        return self._names

    def _common(self, cols):
        if not cols:
            return np.dtype(float)
        ks = {c.dtype for c in cols}
        if len(ks) == 1:
            return ks.pop()
        if all(k.kind in "iuf" for k in ks):
            return np.result_type(*ks)
        return np.dtype(object)

    @property
    def values(self):
        t = self._common(self._cols)
        out = np.empty(self.shape, dtype=t)
        for j, c in enumerate(self._cols):
            out[:, j] = _obj([_box(c, i) for i in range(len(c))]) if t == object else c
        return out

    def to_numpy(self, dtype=None, **k):
        return self.values if dtype is None else self.values.astype(dtype)

    def __array__(self, dtype=None, copy=None):
        return self.values if dtype is None else self.values.astype(dtype)

    @property
    def dtypes(self):
        return Series(_obj([c.dtype for c in self._cols]), index=self._names)

    @property
    def T(self):
        v = self.values
        return DataFrame._make([v[i, :].copy() for i in range(len(self._i))], Index(self._i._l), Index(self._names))

    def copy(self, deep=True):
        return DataFrame._make([c.copy() for c in self._cols], self._names, self._i)

    def _row(self, i):
        t = self._common(self._cols)
        if t == object:
            v = _obj([_box(c, i) for c in self._cols])
        else:
            v = np.array([c[i] for c in self._cols], dtype=t)
        return Series(v, index=self._names, name=self._i[i])

    def iterrows(self):
        for i in range(len(self._i)):
            yield self._i[i], self._row(i)

    def itertuples(self, index=True, name="Pandas"):
        import collections
        cn = [str(c) for c in self._names]
        nt = collections.namedtuple(name, (["Index"] if index else []) + cn, rename=True)
        for i in range(len(self._i)):
            yield nt(*(([self._i[i]] if index else []) + [_box(c, i) for c in self._cols]))

    def items(self):
        for j, n in enumerate(self._names):
            yield n, Series(self._cols[j], index=self._i, name=n)

    def _take(self, ii):
        return DataFrame._make([c[ii] for c in self._cols], self._names, self._i[ii])

    def _col(self, j):
        return Series(self._cols[j], index=self._i, name=self._names[j])

    def _sub(self, k):
        h = self._names.locs(k)
        if isinstance(self._names, MultiIndex) and not (isinstance(k, tuple) and len(k) == self._names.nlevels):
            n = len(k) if isinstance(k, tuple) else 1
            sub = [self._names[j][n:] for j in h]
            if len(sub) == 1 and sub[0] == ("",):
                s = self._col(h[0])
                s.name = k
                return s
            ix = Index([t[0] for t in sub]) if len(sub[0]) == 1 else MultiIndex(sub)
            return DataFrame._make([self._cols[j] for j in h], ix, self._i)
        if len(h) == 1:
            return self._col(h[0])
        return DataFrame._make([self._cols[j] for j in h], self._names._new([self._names[j] for j in h]), self._i)

    def _mask(self, k):
        return Series._mask(None, k)

    def __getitem__(self, k):
        if isinstance(k, DataFrame):
            missing("DataFrame[DataFrame]")
        m = self._mask(k)
        if m is not None:
            if len(m) != len(self._i):
                raise ValueError("Item wrong length")
            return self._take(np.nonzero(m)[0])
        if isinstance(k, slice):
            return self._take(np.arange(len(self._i))[k])
        if isinstance(k, (list, Index, np.ndarray)):
            h = []
            for x in k:
                h += self._names.locs(x)
            return DataFrame._make([self._cols[j] for j in h], self._names._new([self._names[j] for j in h]), self._i)
        return self._sub(k)

    def __setitem__(self, k, v):
        if isinstance(k, (list, Index)):
            v2 = v.values if isinstance(v, DataFrame) else v
            a = np.asarray(v2)
            for j, x in enumerate(k):
                self[x] = a[:, j] if a.ndim == 2 else v
            return
        m = self._mask(k)
        if m is not None:
            for j in range(len(self._cols)):
                self._cols[j] = _set(self._cols[j], np.nonzero(m)[0], v)
            return
        n = len(self._i)
        if isinstance(v, Series) and n and v._i._l != self._i._l:
            v = _infer([v[q] if q in v._i else np.nan for q in self._i])
        if not n and not self._cols or not n and isinstance(v, (list, np.ndarray, Series, Index, range)) and len(v):
            a = _array(v)
            n = len(a)
            object.__setattr__(self, "_i", v._i if isinstance(v, Series) else RangeIndex(n))
            for j in range(len(self._cols)):
                self._cols[j] = np.full(n, np.nan)
        else:
            a = _array(v, n)
        if k in self._names:
            for j in self._names.locs(k):
                self._cols[j] = a.copy()
            return
        if isinstance(self._names, MultiIndex) or (isinstance(k, tuple) and not len(self._names)):
            if not isinstance(k, tuple):
                k = (k,) + ("",) * (self._names.nlevels - 1)
            nm = MultiIndex(self._names._l + [k], names=self._names.names)
        else:
            nm = Index.__new__(Index)
            Index.__init__(nm, self._names._l + [k])
        self._cols.append(a)
        object.__setattr__(self, "_names", nm)

    def insert(self, loc, column, value, allow_duplicates=False):
        if column in self._names:
            raise ValueError("cannot insert %s, already exists" % (column,))
        self[column] = value
        c = self._cols.pop()
        l = list(self._names._l)
        q = l.pop()
        self._cols.insert(loc, c)
        l.insert(loc, q)
        object.__setattr__(self, "_names", self._names._new(l))

    def __delitem__(self, k):
        self.drop(columns=k, inplace=True)

    def pop(self, k):
        r = self[k]
        del self[k]
        return r

    def drop(self, labels=None, axis=0, index=None, columns=None, inplace=False, errors="raise"):
        if columns is None and axis in (1, "columns"):
            columns = labels
        elif index is None and columns is None:
            index = labels
        d = self.copy()
        if columns is not None:
            columns = columns if isinstance(columns, (list, Index)) else [columns]
            h = set()
            for c in columns:
                try:
                    h |= set(d._names.locs(c))
                except KeyError:
                    if errors == "raise":
                        raise
            keep = [j for j in range(len(d._cols)) if j not in h]
            d = DataFrame._make([d._cols[j] for j in keep], d._names._new([d._names[j] for j in keep]), d._i)
        if index is not None:
            index = index if isinstance(index, (list, Index, np.ndarray)) else [index]
            h = set()
            for c in index:
                h |= set(d._i.locs(c))
            d = d._take(np.array([j for j in range(len(d._i)) if j not in h], dtype=int))
        return self._inplace(d, inplace)

    def _inplace(self, d, inplace):
        if not inplace:
            return d
        object.__setattr__(self, "_cols", d._cols)
        object.__setattr__(self, "_names", d._names)
        object.__setattr__(self, "_i", d._i)

    def rename(self, columns=None, index=None, inplace=False, **k):
        d = self.copy()
        if columns is not None:
            f = columns if callable(columns) else (lambda x: columns.get(x, x))
            object.__setattr__(d, "_names", d._names._new([f(x) for x in d._names]))
        if index is not None:
            f = index if callable(index) else (lambda x: index.get(x, x))
            object.__setattr__(d, "_i", Index([f(x) for x in d._i]))
        return self._inplace(d, inplace)

    def sort_values(self, by, ascending=True, inplace=False, **k):
        by = by if isinstance(by, list) else [by]
        asc = ascending if isinstance(ascending, list) else [ascending] * len(by)
        o = list(range(len(self._i)))
        for b, a in reversed(list(zip(by, asc))):
            s = self[b]
            v = (s if isinstance(s, Series) else s.iloc[:, 0])._v
            o.sort(key=lambda j: v[j], reverse=not a)
        return self._inplace(self._take(np.array(o, dtype=int)), inplace)

    def sort_index(self, inplace=False, **k):
        o = sorted(range(len(self._i)), key=lambda j: self._i._l[j])
        return self._inplace(self._take(np.array(o, dtype=int)), inplace)

    def reset_index(self, drop=False, inplace=False, **k):
        d = self.copy()
        old = d._i
        object.__setattr__(d, "_i", RangeIndex(len(old)))
        if not drop:
            n = old.name or "index"
            if isinstance(d._names, MultiIndex):
                n = (n,) + ("",) * (d._names.nlevels - 1)
            d.insert(0, n, old.values if len(old) else [])
        return self._inplace(d, inplace)

    def set_index(self, k, drop=True, inplace=False, **kw):
        s = self[k]
        ix = Index(list(s), name=k) if s._v.dtype.kind != "M" else DatetimeIndex(s, name=k)
        d = self.drop(columns=k) if drop else self.copy()
        object.__setattr__(d, "_i", ix)
        return self._inplace(d, inplace)

    def reindex(self, index=None, columns=None, **k):
        d = self
        if columns is not None:
            d = DataFrame._make([d[c]._v if c in d._names else np.full(len(d._i), np.nan) for c in columns],
                                Index(columns), d._i)
        if index is not None:
            index = _mkindex(index, None)
            cols = [_infer([c[d._i.locs(q)[0]] if q in d._i else np.nan for q in index]) for c in d._cols]
            d = DataFrame._make(cols, d._names, index)
        return d

    def astype(self, t):
        if isinstance(t, dict):
            d = self.copy()
            for k, v in t.items():
                d[k] = d[k].astype(v)
            return d
        return DataFrame._make([self._col(j).astype(t)._v for j in range(len(self._cols))], self._names, self._i)

    def isna(self):
        return DataFrame._make([_isna_arr(c) for c in self._cols], self._names, self._i)

    isnull = isna

    def notna(self):
        return DataFrame._make([~_isna_arr(c) for c in self._cols], self._names, self._i)

    def fillna(self, x):
        return DataFrame._make([self._col(j).fillna(x)._v for j in range(len(self._cols))], self._names, self._i)

    def dropna(self, axis=0, how="any", subset=None, inplace=False, **k):
        if axis != 0:
            missing("dropna(axis=1)")
        m = (self if subset is None else self[list(subset)]).isna().values.astype(bool)
        bad = m.any(axis=1) if how == "any" else m.all(axis=1)
        return self._inplace(self._take(np.nonzero(~bad)[0]), inplace)

    def _red(self, f, axis):
        if axis in (0, None, "index"):
            return Series([f(self._col(j)) for j in range(len(self._cols))], index=self._names)
        return Series([f(self._row(i)) for i in range(len(self._i))], index=self._i)

    def sum(self, axis=0, **k):
        return self._red(lambda s: s.sum(), axis)

    def mean(self, axis=0, **k):
        return self._red(lambda s: s.mean(), axis)

    def min(self, axis=0, **k):
        return self._red(lambda s: s.min(), axis)

    def max(self, axis=0, **k):
        return self._red(lambda s: s.max(), axis)

    def any(self, axis=0, **k):
        return self._red(lambda s: s.any(), axis)

    def all(self, axis=0, **k):
        return self._red(lambda s: s.all(), axis)

    def apply(self, f, axis=0, raw=False, result_type=None, args=(), **k):
        if raw or result_type is not None:
            missing("DataFrame.apply(raw, result_type)")
        if axis in (0, "index"):
            r = [f(self._col(j), *args, **k) for j in range(len(self._cols))]
            return Series(r, index=self._names) if not r or not isinstance(r[0], Series) else \
                DataFrame._make([s._v for s in r], self._names, self._i)
        r = [f(self._row(i), *args, **k) for i in range(len(self._i))]
        if r and isinstance(r[0], Series):
            return DataFrame._make([_infer([s._v[j] for s in r]) for j in range(len(r[0]))], r[0]._i, self._i)
        return Series(_infer(r), index=self._i)

    def explode(self, col, **k):
        j = self._names.get_loc(col)
        rows, ix = [], []
        for i in range(len(self._i)):
            v = self._cols[j][i]
            vs = list(v) if isinstance(v, (list, tuple, np.ndarray)) else [v]
            for x in (vs or [np.nan]):
                rows.append([x if q == j else self._cols[q][i] for q in range(len(self._cols))])
                ix.append(self._i[i])
        cols = [_obj([r[q] for r in rows]) for q in range(len(self._cols))]
        return DataFrame._make(cols, self._names, Index(ix))

    def groupby(self, by, sort=True, as_index=True, **k):
        if isinstance(by, list) and len(by) == 1:
            by = by[0]
        s = self[by]
        if isinstance(s, DataFrame):
            missing("groupby(several)")
        keys = list(dict.fromkeys(s))
        if sort:
            keys.sort()
        return _GroupBy(self, s, keys, None if as_index else by)

    def head(self, n=5):
        return self._take(np.arange(len(self._i))[:n])

    def tail(self, n=5):
        return self._take(np.arange(len(self._i))[-n:])

    def equals(self, o):
        return isinstance(o, DataFrame) and self._names._l == o._names._l and all(
            self._col(j).equals(o._col(j)) for j in range(len(self._cols)))

    def squeeze(self, *a):
        if len(self._cols) == 1:
            s = self._col(0)
            return s.squeeze() if len(s) == 1 else s
        return self._row(0) if len(self._i) == 1 else self

    def to_dict(self, orient="dict"):
        if orient == "list":
            return {n: self._col(j).tolist() for j, n in enumerate(self._names)}
        if orient == "records":
            return [dict(zip(self._names, [_box(c, i) for c in self._cols])) for i in range(len(self._i))]
        return {n: self._col(j).to_dict() for j, n in enumerate(self._names)}

    def to_string(self, float_format=None):
        """Rows of text: enough for what is printed to be looked for."""
        out = ["  ".join([""] + [str(n) for n in self._names])]
        for i in range(len(self._i)):
            v = [_box(c, i) for c in self._cols]
            out.append("  ".join([str(self._i[i])] + [float_format(q) if float_format and isinstance(q, (float, np.floating)) else str(q) for q in v]))
        return "\n".join(out)

    def to_csv(self, path, header=True, index=True, index_label=None, **k):
        if k:
            missing("to_csv(%s)" % ",".join(k))
        own = isinstance(path, (str, bytes)) or hasattr(path, "__fspath__")
        f = open(path, "w", newline="") if own else path
        try:
            w = csv.writer(f, lineterminator="\n")
            nl = self._names.nlevels
            if header:
                for l in range(nl):
                    h = [(n[l] if nl > 1 else n) for n in self._names]
                    first = [index_label] if index_label is not None else [""] if nl == 1 else [self._names.names[l] if self._names.names[l] is not None else ""]
                    w.writerow((first if index else []) + h)
            for i in range(len(self._i)):
                r = []
                for c in self._cols:
                    v = _box(c, i)
                    if isinstance(v, Timestamp):
                        v = str(v.date()) if v == v.normalize() else str(v)
                    elif _isna1(v):
                        v = ""
                    elif isinstance(v, (float, np.floating)):
                        v = repr(float(v))
                    r.append(v)
                ix = self._i[i]
                if isinstance(ix, Timestamp):
                    ix = str(ix.date()) if ix == ix.normalize() else str(ix)
                w.writerow(([ix] if index else []) + r)
        finally:
            if own:
                f.close()

    def info(self, *a, **k):
        pass

    def __repr__(self):
        return "DataFrame(columns=%r, rows=%d)" % (self._names._l, len(self._i))

    def __bool__(self):
        raise ValueError("The truth value of a DataFrame is ambiguous.")

    def _bin(self, o, f, cmp=False):
        if isinstance(o, DataFrame):
            cols = [self._col(j)._bin(o._col(j), f, cmp)._v for j in range(len(self._cols))]
        elif isinstance(o, Series):
            missing("DataFrame op Series")
        elif isinstance(o, np.ndarray) and o.ndim == 2:
            cols = [self._col(j)._bin(o[:, j], f, cmp)._v for j in range(len(self._cols))]
        else:
            cols = [self._col(j)._bin(o, f, cmp)._v for j in range(len(self._cols))]
        return DataFrame._make(cols, self._names, self._i)

    def __invert__(self):
        return DataFrame._make([~c.astype(bool) for c in self._cols], self._names, self._i)

    def __neg__(self):
        return DataFrame._make([-c for c in self._cols], self._names, self._i)

    loc = property(lambda s: _Loc(s))
    iloc = property(lambda s: _ILoc(s))
    at = property(lambda s: _Loc(s))
    iat = property(lambda s: _ILoc(s))


class _Rolling(_Missing):
    def __init__(self, s, w, least, center):
        self._s, self._w, self._least, self._c = s, w, least, center

    def mean(self):
        v, r = self._s._num().astype(float), []
        for i in range(len(v)):
            hi = i + ((self._w - 1) // 2 if self._c else 0)
            q = v[max(0, hi - self._w + 1):hi + 1]
            q = q[~np.isnan(q)]
            r.append(float(q.sum()) / len(q) if len(q) >= max(1, self._least) else np.nan)
        return Series(r, index=self._s._i, name=self._s.name)


class _GroupBy(_Missing):
    def __init__(self, d, s, keys, by=None):
        self._d, self._s, self._k, self._by = d, s, keys, by

    def __iter__(self):
        for k in self._k:
            yield k, self._d[np.array([x == k for x in self._s], dtype=bool)]

    def __getitem__(self, c):
        return _GroupBy(self._d[[c]], self._s, self._k, self._by)

    def __len__(self):
        return len(self._k)

    def _agg(self, f):
        fr = [g._red(f, 0) for _, g in self]
        cols = [_infer([s._v[j] for s in fr]) for j in range(len(self._d._cols))]
        if self._by is not None:
            keep = [j for j, n in enumerate(self._d._names) if n != self._by]
            return DataFrame._make([_infer(list(self._k))] + [cols[j] for j in keep], Index([self._by] + [self._d._names._l[j] for j in keep]),
                                   Index(list(range(len(self._k)))))
        return DataFrame._make(cols, self._d._names, Index(self._k))

    def sum(self):
        return self._agg(lambda s: s.sum())

    def mean(self):
        return self._agg(lambda s: s.mean())

    def transform(self, how):
        if how not in ("mean", "sum") or len(self._d._cols) != 1:
            missing("_GroupBy.transform(%r)" % (how,))
        v, r = self._d._cols[0], np.full(len(self._s), np.nan)
        for k in self._k:
            m = np.array([x == k for x in self._s], dtype=bool)
            r[m] = np.nanmean(v[m].astype(float)) if how == "mean" else np.nansum(v[m].astype(float))
        return Series(r, index=self._d._i, name=self._d._names._l[0])


class _Loc:
    def __init__(self, d):
        self.d = d

    def _rows(self, k):
        d = self.d
        m = d._mask(k)
        if m is not None:
            return np.nonzero(m)[0]
        if isinstance(k, slice):
            l = d._i._l
            if isinstance(d._i, DatetimeIndex):
                a = None if k.start is None else Timestamp(k.start)
                b = None if k.stop is None else Timestamp(k.stop)
                return np.array([j for j, x in enumerate(l) if (a is None or x >= a) and (b is None or x <= b)], dtype=int)
            a = 0 if k.start is None else d._i.locs(k.start)[0]
            b = len(l) if k.stop is None else d._i.locs(k.stop)[-1] + 1
            return np.arange(a, b)[::k.step or 1]
        if isinstance(k, (list, np.ndarray, Index)):
            return np.array([j for x in k for j in d._i.locs(x)], dtype=int)
        h = d._i.locs(k)
        return h[0] if len(h) == 1 else np.array(h)

    def _colpos(self, k):
        d = self.d
        if isinstance(k, slice):
            if k.start is None and k.stop is None:
                return list(range(len(d._cols)))
            a = 0 if k.start is None else d._names.locs(k.start)[0]
            b = len(d._cols) if k.stop is None else d._names.locs(k.stop)[-1] + 1
            return list(range(a, b))
        if isinstance(k, (list, Index)):
            m = d._mask(k if isinstance(k, list) else list(k))
            if m is not None:
                return list(np.nonzero(m)[0])
            return [j for x in k for j in d._names.locs(x)]
        if isinstance(k, np.ndarray):
            return list(np.nonzero(k)[0]) if k.dtype == bool else [j for x in k for j in d._names.locs(x)]
        return None

    def _split(self, k):
        d = self.d
        if isinstance(k, tuple) and not (isinstance(d._i, MultiIndex)) and len(k) == 2:
            return k
        return k, None

    def __getitem__(self, k):
        d = self.d
        r, c = self._split(k)
        rows = self._rows(r)
        scalar = isinstance(rows, (int, np.integer))
        if c is None:
            return d._row(int(rows)) if scalar else d._take(rows)
        pos = self._colpos(c)
        if pos is None:
            s = d._sub(c)
            if isinstance(s, Series):
                return _box(s._v, rows) if scalar else s._take(rows)
            return s._row(int(rows)) if scalar else s._take(rows)
        f = DataFrame._make([d._cols[j] for j in pos], d._names._new([d._names[j] for j in pos]), d._i)
        return f._row(int(rows)) if scalar else f._take(rows)

    def __setitem__(self, k, v):
        d = self.d
        r, c = self._split(k)
        try:
            rows = self._rows(r)
        except KeyError:
            if isinstance(r, (list, slice, np.ndarray)):
                raise
            # enlargement
            n = len(d._i)
            for j in range(len(d._cols)):
                d._cols[j] = np.append(d._cols[j], [np.nan]) if d._cols[j].dtype.kind in "fiu" else \
                    _obj(list(d._cols[j]) + [np.nan])
            object.__setattr__(d, "_i", Index(list(d._i) + [r]))
            rows = n
        if c is None:
            c = slice(None)
        pos = self._colpos(c)
        if pos is None:
            if c not in d._names:
                d[c] = np.nan
            pos = d._names.locs(c)
        if isinstance(v, DataFrame):
            v = v.values
        a = v
        for q, j in enumerate(pos):
            if isinstance(a, np.ndarray) and a.ndim == 2:
                x = a[:, q] if a.shape[1] == len(pos) else a[:, 0]
            elif len(pos) > 1 and isinstance(rows, (int, np.integer)) and isinstance(a, (list, tuple, np.ndarray, Series)):
                x = list(a)[q]
            elif isinstance(a, Series) and not isinstance(rows, (int, np.integer)) and len(a) != len(rows):
                x = _infer([a[d._i[z]] for z in rows])
            else:
                x = a
            d._cols[j] = _set(d._cols[j], int(rows) if isinstance(rows, (int, np.integer)) else rows, x)


class _ILoc:
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        d = self.d
        r, c = k if isinstance(k, tuple) else (k, slice(None))
        one = isinstance(k, tuple)
        rs, cs = isinstance(r, (int, np.integer)), isinstance(c, (int, np.integer))
        if rs and cs:
            return _box(d._cols[int(c)], int(r))
        pos = [int(c)] if cs else list(np.arange(len(d._cols))[c if isinstance(c, slice) else np.asarray(c)])
        f = DataFrame._make([d._cols[j] for j in pos], d._names._new([d._names[j] for j in pos]), d._i) if one else d
        if cs:
            s = f._col(0)
            return s._take(np.arange(len(d._i))[r if isinstance(r, slice) else np.asarray(r)])
        if rs:
            i = int(r)
            return f._row(i if i >= 0 else len(d._i) + i)
        return f._take(np.arange(len(d._i))[r if isinstance(r, slice) else np.asarray(r)])

    def __setitem__(self, k, v):
        d = self.d
        r, c = k if isinstance(k, tuple) else (k, slice(None))
        pos = [int(c)] if isinstance(c, (int, np.integer)) else list(np.arange(len(d._cols))[c])
        for q, j in enumerate(pos):
            x = v[:, q] if isinstance(v, np.ndarray) and v.ndim == 2 else v
            d._cols[j] = _set(d._cols[j], int(r) if isinstance(r, (int, np.integer)) else np.arange(len(d._i))[r], x)


def concat(objs, axis=0, ignore_index=False, **k):
    objs = [o for o in (objs.values() if isinstance(objs, dict) else objs) if o is not None]
    if all(isinstance(o, Series) for o in objs):
        if axis == 0:
            v = np.concatenate([o._v for o in objs]) if len({o._v.dtype for o in objs}) == 1 else \
                _infer([x for o in objs for x in o])
            return Series(v, index=None if ignore_index else Index([x for o in objs for x in o._i]))
        objs = [o.to_frame() for o in objs]
    objs = [o.to_frame() if isinstance(o, Series) else o for o in objs]
    if axis in (1, "columns"):
        base = builtins.max(objs, key=lambda o: len(o._i))
        cols, names = [], []
        for o in objs:
            for j, n in enumerate(o._names):
                names.append(n)
                c = o._cols[j]
                if o._i._l == base._i._l:
                    cols.append(c.copy())
                else:
                    cols.append(_infer([c[o._i.locs(q)[0]] if q in o._i else np.nan for q in base._i]))
        if len({len(o._i) for o in objs}) == 1:
            pass
        mi = [o._names for o in objs if isinstance(o._names, MultiIndex)]
        nm = MultiIndex(names, names=mi[0].names) if names and all(isinstance(n, tuple) for n in names) else Index(names)
        return DataFrame._make(cols, nm, base._i)
    names = list(dict.fromkeys(n for o in objs for n in o._names))
    cols = []
    for n in names:
        parts = []
        for o in objs:
            if n in o._names:
                c = o._cols[o._names.locs(n)[0]]
            else:
                c = np.full(len(o._i), np.nan)
            if len(c) or (len(objs) == 1):
                parts.append(c)
        if not parts:
            cols.append(np.empty(0, dtype=object))
        elif len({p.dtype for p in parts}) == 1:
            cols.append(np.concatenate(parts))
        elif all(p.dtype.kind in "iuf" for p in parts):
            cols.append(np.concatenate([p.astype(float) for p in parts]))
        else:
            cols.append(_obj([_box(p, i) for p in parts for i in range(len(p))]))
    ix = RangeIndex(sum(len(o._i) for o in objs)) if ignore_index else Index([x for o in objs for x in o._i])
    nm = MultiIndex(names) if names and all(isinstance(n, tuple) for n in names) else Index(names)
    return DataFrame._make(cols, nm, ix)


_NA = {"", "NaN", "nan", "NA", "N/A", "null", "NULL", "None", "#N/A", "-nan", "-NaN", "n/a", "<NA>"}


def _csvcol(raw):
    v = [None if x.strip() in _NA else x for x in raw]
    if v and all(x is not None and re.fullmatch(r"\s*[+-]?\d+\s*", x) for x in v):
        return np.array([int(x) for x in v], dtype=np.int64)
    if v and all(x in ("True", "False") for x in v):
        return np.array([x == "True" for x in v])
    try:
        return np.array([np.nan if x is None else float(x) for x in v], dtype=float)
    except ValueError:
        return _obj([np.nan if x is None else x for x in v])


def read_csv(path, header="infer", sep=",", delimiter=None, index_col=None, parse_dates=None, date_format=None,
             skiprows=None, usecols=None, names=None, dtype=None, comment=None, **kw):
    nrows, skip_blank = kw.pop("nrows", None), kw.pop("skip_blank_lines", True)
    kw.pop("encoding", None)
    if kw.pop("engine", "c") not in ("c", "python"):
        missing("read_csv(engine)")
    if kw:
        missing("read_csv(%s)" % ",".join(kw))
    own = isinstance(path, (str, bytes)) or hasattr(path, "__fspath__")
    f = open(path, newline="") if own else path
    try:
        rows = list(csv.reader(f, delimiter=delimiter or sep))
    finally:
        if own:
            f.close()
    if isinstance(skiprows, int):
        rows = rows[skiprows:]
    elif skiprows:
        rows = [r for i, r in enumerate(rows) if i not in set(skiprows)]
    if skip_blank:
        rows = [r for r in rows if r and any(x.strip() for x in r) or len(r) > 1]
    if not rows:
        raise ValueError("No columns to parse from file")
    if header is None:
        cols = list(names) if names is not None else list(range(len(rows[0])))
        body = rows
    elif isinstance(header, list):
        n = len(header)
        heads, body = rows[:n], rows[n:]
        w = builtins.max(len(h) for h in heads)
        cols = []
        for j in range(w):
            t = []
            for l in range(n):
                x = heads[l][j] if j < len(heads[l]) else ""
                t.append(x if x.strip() else "Unnamed: %d_level_%d" % (j, l))
            cols.append(tuple(t))
    else:
        cols, body = list(rows[0]), rows[1:]
        cols = [c if c.strip() else "Unnamed: %d" % j for j, c in enumerate(cols)]
        if names is not None:
            cols = list(names)
    if nrows is not None:
        body = body[:nrows]
    text = dtype is str and (cols if usecols is None else [c for c in cols if c in list(usecols)])
    if text:
        col = lambda raw: _obj([x if x.strip() not in ("", "NA", "NaN", "nan", "N/A", "null", "None") else np.nan
                                for x in raw])
        dtype = None
    else:
        col = _csvcol
    data = [col([r[j] if j < len(r) else "" for r in body]) for j in range(len(cols))]
    d = DataFrame._make(data, MultiIndex(cols) if isinstance(header, list) else Index(cols), RangeIndex(len(body)))
    if dtype is not None:
        d = d.astype(dtype)
    if usecols is not None:
        d = d[[c for c in d._names if c in list(usecols)]]
    if parse_dates is not None and parse_dates is not False:
        for c in ([index_col] if parse_dates is True else parse_dates):
            if isinstance(c, int):
                c = d._names[c]
            s = d[c]
            d[c] = to_datetime(s if s._v.dtype == object else s.astype(str), format=date_format)
    if index_col is not None and index_col is not False:
        d = d.set_index(d._names[index_col] if isinstance(index_col, int) else index_col)
    return d


_bind_ops()


class api:
    class types:
        @staticmethod
        def is_numeric_dtype(x):
            return np.dtype(getattr(x, "dtype", x)).kind in "iufb"

        @staticmethod
        def is_datetime64_any_dtype(x):
            return np.dtype(getattr(x, "dtype", x)).kind == "M"

        @staticmethod
        def is_list_like(x):
            return isinstance(x, (list, tuple, set, np.ndarray, Series, Index))


class testing:
    @staticmethod
    def assert_frame_equal(a, b, **k):
        assert list(a.columns) == list(b.columns)
        for j in range(len(a._cols)):
            for x, y in zip(a._cols[j], b._cols[j]):
                assert x == y or (_isna1(x) and _isna1(y)) or abs(x - y) <= 1e-8 + 1e-5 * abs(y), (x, y)

    @staticmethod
    def assert_series_equal(a, b, **k):
        assert a.equals(b)
