"""A small stand-in for cftime: num2date for days since a date in the standard (= Gregorian, after 1582) calendar."""
import datetime as _dt

import numpy as np


def num2date(times, units, calendar=None, **k):
    import pandas
    p = units.split()
    if k or calendar not in (None, "standard", "gregorian") or len(p) < 3 or p[0] not in ("days", "day") or p[1] != "since":
        pandas.missing("cftime.num2date(%r)" % units)
    ref = _dt.datetime.fromisoformat(" ".join(p[2:]))
    a = np.ma.getdata(times)
    if a.dtype.kind not in "iuf" or np.ma.is_masked(times):
        pandas.missing("cftime.num2date of %s" % a.dtype)
    out = np.empty(a.shape, object)
    for i, v in np.ndenumerate(a):
        v = v.item()
        days = int(v // 1)
        out[i] = ref + _dt.timedelta(days=days) + _dt.timedelta(microseconds=round((v - days) * 86400e6))
    return out if out.ndim else out[()]
