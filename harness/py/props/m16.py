"""M16: the forcing of a unit taken from gridded data is the mean of the cells of data under it, for the dates they are given."""
import datetime
import itertools
import os
import pickle
import sys

_H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(_H, "shims_gis"))
sys.path.insert(0, os.path.join(_H, "shims_grid"))

import numpy as np
import pandas as pd
import rasterio

from props.common import *
from hydrobricks.forcing import Forcing
from hydrobricks.time_series import TimeSeries2D

CASE_LIMIT = 120
X0, Y0, CELL, PIX = 2600000.0, 1200000.0, 100.0, 50.0      # the first data cell starts at X0 and ends at Y0 going down
EPSG = {"a": (2056, 0.0, 0.0), "b": (21781, -2e6, -1e6)}     # systems that are shifts of one another
START = datetime.datetime(2019, 12, 30)
V = Forcing.Variable


def cases(tier):
    full = tier == "thorough"
    # the units on the data: every raster of 2 x 3 pixels of two units, against the grid of the data in all its positions and directions
    for word in itertools.product("012", repeat=6):
        w = "".join(word)
        if not ("1" in w and "2" in w):
            continue
        for sx, sy, fl in itertools.product((0, 1), (0, 1), ("dd", "du", "ud", "uu")):
            yield "map/2x3/%s/%d%d/%s/2x2a-" % (w, sx, sy, fl)
    for (n, m), reps in (((2, 2), "1"), ((2, 2), "12"), ((3, 4), "12"), ((4, 4), "1230"), ((6, 5), "1230"), ((5, 6), "132")):
        for k in range(12 if not full else 60):
            w = pattern(reps, n * m, k)
            for sx, sy, fl in itertools.product((0, 1, 3), (0, 1, 2), ("dd", "du", "ud", "uu")):
                for opt in ("4x4a-", "2x3a-", "4x4b-", "5x4an", "4x4af", "4x4bl"):
                    yield "map/%dx%d/%s/%d%d/%s/%s" % (n, m, w, sx, sy, fl, opt)
    # cells without data
    for word in itertools.product("01", repeat=6):
        for w in ("111222333", "123123123", "112213333", "111111111"):
            yield "gap/%s/%s" % (w, "".join(word))
    # days and blocks of days
    for n in (2, 3, 7, 99, 100, 101, 200, 201, 367, 400):
        yield "time/%d/100" % n
    for n in range(2, 9 if not full else 30):
        for b in range(1, 7 if not full else 31):
            for g in "0am":
                yield "time/%d/%d/%s" % (n, b, g)
    for s in ("2019-01-01", "2020-01-01", "2020-02-27", "2019-02-27", "2019-12-30", "2020-12-30", "2019-06-15", "2020-06-15"):
        for n in (2, 3, 60, 99, 101, 200, 300, 364, 365, 366, 367, 370, 500, 800):
            yield "doy/%s/%d" % (s, n)
    # relief: heights by columns and rows
    steps = (0, 60, 120, -80)
    for a in itertools.product(steps, repeat=2):
        for b in itertools.product(steps, repeat=2):
            for t in "am":
                for fl in ("du", "dd"):
                    yield "relief/%s/%s/%s/%s/c" % (t, fl, ",".join(map(str, a)), ",".join(map(str, b)))
                if all(a) and all(b):
                    yield "relief/%s/%s/%s/%s/v" % (t, "du", ",".join(map(str, a)), ",".join(map(str, b)))
    for n in (3, 4):
        for a in itertools.product(steps if full else (0, 60, -80), repeat=n):
            for b in ((60,) * 3, (0, 0, 0), (60, 0, 0), (0, -80, 0), (0, 0, 120), (-80, 60, 0), (0, 0, 0, 60), (60, 0, 0, 0, 0)):
                for t in "am":
                    yield "relief/%s/du/%s/%s/c" % (t, ",".join(map(str, a)), ",".join(map(str, b)))
                    yield "relief/%s/du/%s/%s/c" % (t, ",".join(map(str, b)), ",".join(map(str, a)))
    for v, g, c in itertools.product(("P", "temperature", "pet", "r_solar", "tmin"), ("-", "a", "m", "off"), ("units", "land", "blind", "two")):
        yield "which/%s/%s/%s" % (v, g, c)
    for v, e, k in itertools.product(("P", "T", "pet", "r_solar", "wind"), (0, 2000, 9000), "am"):
        yield "sign/%s/%d/%s" % (v, e, k)
    for w in sorted(WRONG):
        yield "wrong/%s" % w
    for ops in itertools.product("gsTGR", repeat=2):
        yield "again/%s" % "".join(ops)
    for ops in itertools.product("gsTGR", repeat=3):
        yield "again/%s" % "".join(ops)


def pattern(reps, n, k):
    r, s = [], k * 7919 + 13
    for i in range(n):
        s = (s * 1103515245 + 12345) % 2 ** 31
        r.append(reps[(s >> 9) % len(reps)])
    for i, c in enumerate(sorted(set(reps) - {"0"})):       # every unit somewhere
        if c not in r:
            r[(i * 5 + k) % n] = c
    return "".join(r)


def raster(path, a, nodata, sx=0.0, sy=0.0, pix=PIX, crs=2056):
    with open(path, "wb") as f:
        pickle.dump({"data": np.array(a), "transform": (pix, 0.0, X0 + sx, 0.0, -pix, Y0 - sy), "crs": "EPSG:%d" % crs, "nodata": nodata}, f)
    return path


class Grid:
    """Data on cells; the first row is the northern one and the first column the western one, however they are stored."""

    def __init__(self, n, m, kind="a", fl="dd", dims=("time", "y", "x"), x0=X0, y0=Y0, cell=CELL):
        self.n, self.m, self.fl, self.dims = n, m, fl, dims
        self.epsg, self.dx, self.dy = EPSG[kind]
        self.x = x0 + cell * (np.arange(m) + 0.5)
        self.y = y0 - cell * (np.arange(n) + 0.5)
        self.cell = cell

    def at(self, x, y):
        """The cell over a place, or none."""
        for i in range(self.n):
            for j in range(self.m):
                if abs(x - self.x[j]) < self.cell / 2 and abs(y - self.y[i]) < self.cell / 2:
                    return i, j
        return None

    def save(self, path, times, values, var="v", crs=None, attrs=None, tname=None, extra=None):
        v, x, y = np.array(values, dtype=float), self.x + self.dx, self.y + self.dy
        if self.fl[0] == "u":
            v, x = v[:, :, ::-1], x[::-1]
        if self.fl[1] == "u":
            v, y = v[:, ::-1, :], y[::-1]
        t, dy, dx = self.dims
        t = tname or t
        b = {"vars": {t: ((t,), np.array(times)), dy: ((dy,), y), dx: ((dx,), x), var: ((t, dy, dx), v)}, "attrs": attrs or {}, "crs": crs, "time": t}
        b["vars"].update(extra or {})
        with open(path, "wb") as f:
            pickle.dump(b, f)
        return path


def units(ids, elev=None):
    hu = hb.HydroUnits()
    hu.hydro_units = pd.DataFrame({("id", "-"): list(ids), ("area", "m2"): [1e5] * len(ids),
                                   ("elevation", "m"): [float(e) for e in (elev or [1000 + 10 * k for k in range(len(ids))])]})
    return hu


def days(n, start=START):
    return [np.datetime64(start + datetime.timedelta(days=k), "ns") for k in range(n)]


def pixels(word, shape, sx, sy, pix=PIX):
    """Places of the pixels of every unit."""
    n, m = shape
    r = {}
    for k, c in enumerate(word):
        r.setdefault(int(c), []).append((X0 + sx + pix * (k % m + 0.5), Y0 - sy - pix * (k // m + 0.5)))
    return r


def mean(grid, values, places):
    """Mean over the places of what their cells give (days x units); places without data do not count."""
    cells = [grid.at(*p) for p in places]
    out = []
    for v in values:
        a = [v[c] for c in cells if c is not None and v[c] == v[c]]
        out.append(sum(a) / len(a) if a else np.nan)
    return np.array(out)


def got(ts):
    return np.array(ts.data[-1], dtype=float)


def dates_of(t):
    return [pd.Timestamp(k).isoformat()[:16] for k in t]


def field(n, m, k):
    """Values of all cells and days, all different."""
    return np.array([[[((7 * i + 3 * j * j + 5 * t * t + 11 * t * j) % 97) / 4.0 + i + 0.125 * j - 3 for j in range(m)] for i in range(n)] for t in range(k)])


def run_map(name, x):
    shape, word, off, fl, opt = name.split("/")
    shape = tuple(map(int, shape.split("x")))
    size, kind, how = tuple(map(int, opt[:-2].split("x"))), opt[-2], opt[-1]
    sx, sy = (PIX * int(k) - PIX for k in off)          # the units may stick out of the data
    dims = ("day", "N", "E") if how in "nl" else ("time", "y", "x")
    g = Grid(*size, kind=kind, fl=fl, dims=dims)
    place = pixels(word, shape, sx, sy)
    ids = sorted((k for k in place if k), key=lambda k: (k * 2) % 5)
    T = 5
    values = field(*size, T)
    if how == "f":     # several files, the later days in the first
        paths = [g.save(x.d + "/g_%s.nc" % s, days(T)[a], values[a], var="T") for s, a in (("a", slice(3, 5)), ("b", slice(0, 3)))]
        src = dict(path=x.d, file_pattern="g_?.nc")
    else:
        src = dict(path=g.save(x.d + "/g.nc", days(T), values, var="T", crs=g.epsg if how == "l" else None,
                               attrs={"crs": g.epsg} if how == "n" else {}, extra={"lon": (dims[1:], values[0] * 0), "flag": ((dims[0],), np.arange(T))}))
    if how not in "nl":
        src["data_crs"] = g.epsg
    r = raster(x.d + "/u.tif", np.array([int(c) for c in word]).reshape(shape), 0, sx, sy)
    f = Forcing(units(ids))
    f.spatialize_from_gridded_data("temperature", var_name="T", raster_hydro_units=r, apply_data_gradient=False,
                                   **dict(zip(("dim_time", "dim_y", "dim_x"), dims)), **src)
    bare = [u for u in ids if not any(g.at(*p) for p in place[u])]
    if bare:
        x.check(refused(f.apply_operations, AssertionError) is not None, "map:bare", "unit %s without any data accepted: %s", bare, f.data2D.data)
        return
    f.apply_operations()
    d = got(f.data2D)
    x.same(list(f.data2D.data_name), [V.T], "map:name", "variables")
    x.same(d.shape, (T, len(ids)), "map:shape", "days and units")
    x.same(dates_of(f.data2D.time), dates_of(days(T)), "map:dates", "dates")
    for k, u in enumerate(ids):
        want = mean(g, values, place[u])
        for t in range(T):
            x.close(d[t, k], want[t], 1e-9, "map:value", "unit %d day %d of %s" % (u, t, name))


def run_gap(name, x):
    word, hole = name.split("/")
    g = Grid(2, 3, fl="du")
    values = field(2, 3, 4) + 20
    for k, c in enumerate(hole):
        if c == "1":
            values[1:3, k // 3, k % 3] = np.nan          # two of the days
    place = pixels(word, (3, 3), 50, 0)
    ids = sorted(place)
    r = raster(x.d + "/u.tif", np.array([int(c) for c in word]).reshape(3, 3), 0, 50, 0)
    f = Forcing(units(ids))
    f.spatialize_from_gridded_data("temperature", path=g.save(x.d + "/g.nc", days(4), values), var_name="v", data_crs=2056,
                                   raster_hydro_units=r, apply_data_gradient=False)
    err = refused(f.apply_operations)
    if err is not None:
        x.check("1" in hole, "gap:refused", "complete data refused: %r", err)
        return
    d = got(f.data2D)
    for k, u in enumerate(ids):
        want = mean(g, values, place[u])
        for t in range(4):
            if want[t] != want[t]:
                x.check(d[t, k] != d[t, k], "gap:none", "unit %d day %d has no data, but got %s", u, t, d[t, k])
            else:
                x.close(d[t, k], want[t], 1e-9, "gap:value", "unit %d day %d of %s" % (u, t, name))


def run_time(name, x):
    p = name.split("/")
    n, block, grad = int(p[0]), int(p[1]), p[2] if len(p) > 2 else "0"
    g = Grid(3, 3, fl="du")
    h = np.array([[1000.0 + 100 * i + 70 * j for j in range(3)] for i in range(3)])
    k = np.arange(n)[:, None, None]
    values = {"0": field(3, 3, n), "a": 2.0 * k + (0.003 + 0.001 * (k % 5)) * h, "m": (1 + k % 7) * np.ones((n, 3, 3)) * (k % 3 > 0)}[grad]
    word = "111222333" * 4
    place = pixels(word, (6, 6), 0, 0)
    elev = [1150.0, 1010.0, 1333.0]
    r = raster(x.d + "/u.tif", np.array([int(c) for c in word]).reshape(6, 6), 0)
    dem = raster(x.d + "/d.tif", np.kron(h, np.ones((2, 2))), -9999.0)
    t = TimeSeries2D()
    t.regrid_from_netcdf(g.save(x.d + "/g.nc", days(n), values), data_crs=2056, var_name="v", hydro_units=units([1, 2, 3], elev).hydro_units,
                         raster_hydro_units=r, weights_block_size=block, apply_data_gradient=grad != "0",
                         gradient_type="multiplicative" if grad == "m" else "additive", dem_path=dem)
    d = got(t)
    x.same(d.shape, (n, 3), "time:shape", "days and units")
    for u in range(3):
        if grad == "a":
            want = np.array([2.0 * q + (0.003 + 0.001 * (q % 5)) * elev[u] for q in range(n)])
        else:
            want = mean(g, values, place[u + 1])
        for q in range(n):
            x.close(d[q, u], want[q], 1e-9, "time:value", "unit %d day %d of %s" % (u, q, name))


def run_doy(name, x):
    start, n = name.split("/")
    start, n = datetime.datetime.fromisoformat(start), int(n)
    g = Grid(2, 2)
    word = "1122"
    place = pixels(word, (2, 2), 50, 0)
    r = raster(x.d + "/u.tif", np.array([int(c) for c in word]).reshape(2, 2), 0, 50, 0)
    temp = field(2, 2, n)
    f = Forcing(units([2, 1]))
    f.spatialize_from_gridded_data("temperature", path=g.save(x.d + "/t.nc", days(n, start), temp), var_name="v", data_crs=2056,
                                   raster_hydro_units=r, apply_data_gradient=False)
    rad = np.array([[[300.0 * k + 20 * i + j for j in range(2)] for i in range(2)] for k in range(1, 367)])
    f.spatialize_from_gridded_data("solar_radiation", path=g.save(x.d + "/r.nc", np.arange(1, 367), rad, tname="day_of_year"), var_name="v",
                                   data_crs=2056, raster_hydro_units=r)
    f.apply_operations()
    x.same(list(f.data2D.data_name), [V.T, V.R_SOLAR], "doy:name", "variables")
    x.same(dates_of(f.data2D.time), dates_of(days(n, start)), "doy:dates", "dates")
    a, b = (np.array(v, dtype=float) for v in f.data2D.data)
    x.same(b.shape, (n, 2), "doy:shape", "days and units")
    for k, u in enumerate((2, 1)):
        wt, wr = mean(g, temp, place[u]), mean(g, rad, place[u])
        for q in range(n):
            day = start + datetime.timedelta(days=q)
            x.close(a[q, k], wt[q], 1e-9, "doy:other", "temperature of unit %d on %s" % (u, day))
            x.close(b[q, k], wr[(day - datetime.datetime(day.year, 1, 1)).days], 1e-9, "doy:value", "radiation of unit %d on %s" % (u, day))


def run_relief(name, x):
    """Data that follow the height of the ground everywhere in the same way: the units get what belongs to their own height."""
    t, fl, a, b, how = name.split("/")
    A, B = ([0] + list(map(int, v.split(","))) for v in (a, b))
    zx, zy = np.cumsum(A), np.cumsum(B)
    n, m = len(B), len(A)
    h = 1500.0 + zy[:, None] + zx[None, :]
    g = Grid(n, m, fl=fl)
    sub = np.zeros((2, 2)) if how == "c" else np.array([[-8.0, 3.0], [4.0, 1.0]])      # relief inside the cells
    dem = raster(x.d + "/d.tif", np.kron(h, np.ones((2, 2))) + np.tile(sub, (n, m)), -9999.0)
    word = [[1 if (i + 2 * j) % 3 == 0 else 2 if j < m else 3 for j in range(2 * m)] for i in range(2 * n)]
    flat = "".join(str(c) for r in word for c in r)
    place = pixels(flat, (2 * n, 2 * m), 0, 0)
    ids = sorted(place)
    elev = [1480.0, 1733.0, 2100.0][:len(ids)]
    r = raster(x.d + "/u.tif", np.array(word), 0)
    T = 3
    rates = (-0.0065, 0.001, 0.0)
    if t == "a":
        values = np.array([10.0 * k + rates[k] * h for k in range(T)])
    else:       # every step of the ground multiplies the data by the same factor
        values = np.array([5.0 * k * np.ones((n, m)) for k in range(T)])
    flat_x, flat_y = [abs(v) < 50 for v in A[1:]], [abs(v) < 50 for v in B[1:]]
    # (the nan filling interpolates along ascending coordinates)
    some = any(flat_x) or any(flat_y)
    if fl == "dd" and some:
        x.ok(1)
        return
    level = sum(flat_x) / len(flat_x) > 0.6 and sum(flat_y) / len(flat_y) > 0.6
    tser = TimeSeries2D()
    tser.regrid_from_netcdf(g.save(x.d + "/g.nc", days(T), values), data_crs=2056, var_name="v", hydro_units=units(ids, elev).hydro_units,
                            raster_hydro_units=r, apply_data_gradient=True, gradient_type={"a": "additive", "m": "multiplicative"}[t], dem_path=dem)
    d = got(tser)
    for k, u in enumerate(ids):
        plain = mean(g, values, place[u])
        for q in range(T):
            want = 10.0 * q + rates[q] * elev[k] if t == "a" and not level else plain[q]
            x.close(d[q, k], want, 1e-9, "relief:" + t, "unit %d (%g m) day %d of %s" % (u, elev[k], q, name))
    if t == "m" and not level and not some:
        run_steps(x, g, h, A, B, place, ids, elev, r, dem, name)


def run_steps(x, g, h, A, B, place, ids, elev, r, dem, name):
    """Precipitation multiplied by q for every 100 m, on ground rising by 100 m steps: bounded by its own factor, never negative, scales with the data."""
    res = []
    for c in (1.0, 4.0):
        values = np.array([c * 3.0 * 1.1 ** ((h - 1500) / 100), np.zeros(h.shape)])
        t = TimeSeries2D()
        t.regrid_from_netcdf(g.save(x.d + "/s%g.nc" % c, days(2), values), data_crs=2056, var_name="v", hydro_units=units(ids, elev).hydro_units,
                             raster_hydro_units=r, apply_data_gradient=True, gradient_type="multiplicative", dem_path=dem)
        res.append(got(t))
    for k, u in enumerate(ids):
        x.close(res[1][0, k], 4 * res[0][0, k], 1e-9, "steps:scale", "four times the data, unit %d of %s" % (u, name))
        x.check(res[0][1, k] == 0, "steps:dry", "precipitation %s on a dry day", res[0][1, k])
        x.check(res[0][0, k] >= 0, "steps:sign", "negative precipitation %s", res[0][0, k])
    rise = lambda v: all(s > 0 for s in v[1:])
    fall = lambda v: all(s < 0 for s in v[1:])
    # (the latitudes are stored ascending or descending, the longitudes ascending: steps seen in storage order)
    along = lambda s, up: (1 - 1.1 ** (-s / 100)) / s if up else (1 - 1.1 ** (s / 100)) / -s
    gx = {along(s, True) for s in A[1:]}
    gy = {along(s, g.fl[1] == "d") for s in B[1:]}
    if len(gx) == 1 and len(gy) == 1:
        grad = (gx.pop() + gy.pop()) / 2
        p = 3.0 * 1.1 ** ((h - 1500) / 100)
        for k, u in enumerate(ids):
            cells = [g.at(*q) for q in place[u]]
            want = sum(p[c] * max(0.0, 1 + grad * (elev[k] - h[c])) for c in cells) / len(cells)
            if "c" == name[-1]:
                x.close(res[0][0, k], want, 1e-9, "steps:value", "unit %d of %s" % (u, name))


def world(x, n=3, ids=(1, 2), catchment=None):
    """A small land with data that rise with the ground."""
    h = np.array([[1000.0 + 100 * i + 70 * j for j in range(3)] for i in range(3)])
    g = Grid(3, 3, fl="du")
    word = "111222" * 6
    r = raster(x.d + "/u.tif", np.array([int(c) for c in word]).reshape(6, 6), 0)
    dem = raster(x.d + "/d.tif", np.kron(h, np.ones((2, 2))), -9999.0)
    hu = units(ids, [1500.0, 800.0][:len(ids)])
    if catchment is None:
        return g, h, r, dem, hu, pixels(word, (6, 6), 0, 0)
    c = hb.Catchment()
    c.hydro_units = hu
    c.dem = None if catchment == "blind" else rasterio.open(dem)
    if catchment == "two":
        c.dem.files = [dem, dem + "b"]
    elif catchment == "land":
        c.dem.files = [dem, dem + ".aux.xml"]
    return g, h, r, dem, c, pixels(word, (6, 6), 0, 0)


def run_which(name, x):
    """Whether and how the relief counts depends on the variable, unless it is told."""
    v, grad, where = name.split("/")
    g, h, r, dem, c, place = world(x, catchment=where if where != "units" else None)
    values = np.array([4.0 + 0.002 * h, 8.0 - 0.001 * h, 0 * h + 3])
    f = Forcing(c)
    kw = {"-": {}, "a": dict(apply_data_gradient=True, gradient_type="additive"), "m": dict(apply_data_gradient=True, gradient_type="multiplicative"),
          "off": dict(apply_data_gradient=False)}[grad]
    f.spatialize_from_gridded_data(v, path=g.save(x.d + "/g.nc", days(3), values), var_name="v", data_crs=2056, raster_hydro_units=r, **kw)
    kind = {"P": "m", "temperature": "a"}.get(v, "off") if grad == "-" else grad
    err = refused(f.apply_operations)
    if kind != "off" and where != "land":
        x.check(err is not None, "which:blind", "the relief of nothing was used: %s", name)
        return
    x.check(err is None, "which:refused", "%s refused: %r", name, err)
    x.same(list(f.data2D.data_name), [f.get_variable_enum(v)], "which:name", "variables")
    d = got(f.data2D)
    for k, e in enumerate((1500.0, 800.0)):
        plain = mean(g, values, place[k + 1])
        for t in range(3):
            if kind == "off":
                x.close(d[t, k], plain[t], 1e-9, "which:plain", name)
            elif kind == "a":
                x.close(d[t, k], (4.0 + 0.002 * e, 8.0 - 0.001 * e, 3.0)[t], 1e-9, "which:additive", name)
            elif t == 2:
                x.close(d[t, k], 3.0, 1e-9, "which:even", name)
            else:
                x.check(abs(d[t, k] - (4.0 + 0.002 * e, 8.0 - 0.001 * e)[t]) > 1e-9 and abs(d[t, k] - plain[t]) > 1e-6, "which:factor",
                        "%s is no product: %s", name, d[t, k])


def run_sign(name, x):
    """Far from the heights of the data, only what can be negative becomes negative."""
    v, e, k = name.split("/")
    g, h, r, dem, c, place = world(x, catchment="land")
    e = float(e)
    c.hydro_units.hydro_units[("elevation", "m")] = [e, e + 50]
    values = np.array([4.0 + 0.002 * h, 8.0 - 0.001 * h, 0 * h + 3, 0 * h])
    f = Forcing(c)
    f.spatialize_from_gridded_data(v, path=g.save(x.d + "/g.nc", days(4), values), var_name="v", data_crs=2056, raster_hydro_units=r,
                                   apply_data_gradient=True, gradient_type={"a": "additive", "m": "multiplicative"}[k])
    f.apply_operations()
    d = got(f.data2D)
    for u in range(2):
        for t in range(4):
            if k == "a":
                want = (4.0 + 0.002 * (e + 50 * u), 8.0 - 0.001 * (e + 50 * u), 3.0, 0.0)[t]
                x.close(d[t, u], want if v == "T" else max(want, 0.0), 1e-9, "sign:value", "unit %d day %d of %s" % (u, t, name))
            else:
                x.check(d[t, u] >= 0, "sign:negative", "%s from positive data", d[t, u])


WRONG = {
    "gradient": dict(gradient_type="other"), "gradient-empty": dict(gradient_type=""), "raster": dict(raster_hydro_units=None),
    "raster-file": dict(raster_hydro_units="/none.tif"), "path": dict(path="/none.nc"), "var": dict(var_name="w"), "var-none": dict(var_name=None),
    "dim-time": dict(dim_time="t"), "dim-x": dict(dim_x="lon"), "dim-y": dict(dim_y="lat"), "crs": dict(data_crs=None), "pattern": dict(file_pattern="*.none"),
    "times": {}, "shorter": {}, "longer": {}, "doy-first": {}, "doy-365": {}, "method": {}, "variable": {}, "later": {}, "end": {}, "unit": {}, "dem-part": {}}


def run_wrong(name, x):
    g, h, r, dem, c, place = world(x, catchment="land", ids=(1, 2) if name != "unit" else (1, 5))
    values = np.array([4.0 + 0.002 * h, 8.0 - 0.001 * h, 0 * h + 3])
    f = Forcing(c)
    path = g.save(x.d + "/g.nc", days(3), values)
    kw = dict(path=path, var_name="v", data_crs=2056, raster_hydro_units=r)
    if name in ("method", "variable"):
        x.check(refused(lambda: f.spatialize_from_gridded_data(**dict(kw, variable="P" if name == "method" else "Q", method="m" if name == "method" else "default"))) is not None,
                "wrong:" + name, "unknown %s accepted", name)
        return
    if name == "dem-part":
        # a corner of the land without heights still has data
        a = np.kron(h, np.ones((2, 2)))
        a[:2, :2] = -9999.0
        raster(x.d + "/d.tif", a, -9999.0)
        c.dem = rasterio.open(dem)
        f.spatialize_from_gridded_data(variable="T", **kw)
        f.apply_operations()
        d = got(f.data2D)
        plain = mean(g, values, place[1])
        x.check(np.all(np.isfinite(d)), "wrong:dem-part", "no value where a part of the heights is missing: %s", d)
        x.close(d[2, 0], 3.0, 1e-9, "wrong:dem-even", "even data with a part of the heights missing")
        return
    if name in ("times", "shorter", "longer", "later", "end"):
        f.spatialize_from_gridded_data(variable="T", **kw)
        t = {"times": days(3, START + datetime.timedelta(days=1)), "shorter": days(2), "longer": days(4), "later": days(3, START + datetime.timedelta(hours=1)),
             "end": days(2) + [days(5)[4]]}[name]
        v = np.concatenate([values, values])[:len(t)]
        f.spatialize_from_gridded_data(variable="P", **dict(kw, path=g.save(x.d + "/g2.nc", t, v)))
    elif name in ("doy-first", "doy-365"):
        if name == "doy-365":
            f.spatialize_from_gridded_data(variable="T", **kw)
        n = 366 if name == "doy-first" else 365
        f.spatialize_from_gridded_data(variable="r_solar", **dict(kw, path=g.save(x.d + "/g2.nc", np.arange(1, n + 1), np.ones((n, 3, 3)), tname="day_of_year")))
    else:
        if name == "pattern":
            kw["path"] = x.d
        f.spatialize_from_gridded_data(variable="T", **dict(kw, **WRONG[name]))
    err = refused(f.apply_operations, OSError, AssertionError, IsADirectoryError)
    x.check(err is not None, "wrong:" + name, "accepted: %s", [np.array(d).tolist() for d in f.data2D.data])


def run_again(ops, x):
    """What was declared last for a variable counts, once, however often it is applied."""
    g, h, r, dem, c, place = world(x, catchment="land")
    f = Forcing(c)
    want = {}
    with open(x.d + "/s.csv", "w") as o:
        o.write("d,P,T\n" + "".join("%s,%d,%d\n" % (str(t)[:10], 3 + k, 10 * k) for k, t in enumerate(days(3))))
    loaded = False
    for n, o in enumerate(ops):
        v = np.array([4.0 + 0.002 * h + n, 8.0 - 0.001 * h + n, 0 * h + 3 + n])
        if o == "s":
            if not loaded:
                f.load_station_data_from_csv(x.d + "/s.csv", column_time="d", time_format="%Y-%m-%d", content={"P": "P", "T": "T"})
            loaded = True
            f.spatialize_from_station_data("P", method="constant")
            if V.P not in want or want[V.P][0] == "s":       # data on a grid are applied after those of stations
                want[V.P] = ("s", [[3.0 + k] * 2 for k in range(3)])
        elif o == "R":
            if n:
                f.apply_operations()
        else:
            var = {"g": "P", "G": "P", "T": "T"}[o]
            f.spatialize_from_gridded_data(var, path=g.save(x.d + "/g%d.nc" % n, days(3), v), var_name="v", data_crs=2056, raster_hydro_units=r,
                                           apply_data_gradient=o == "T")
            e = (1500.0, 800.0)
            want[f.get_variable_enum(var)] = ("g", [[(4.0 + 0.002 * q + n, 8.0 - 0.001 * q + n, 3.0 + n)[t] for q in e] for t in range(3)] if o == "T" else
                                              [[float(mean(g, v, place[u])[t]) for u in (1, 2)] for t in range(3)])
    f.apply_operations()
    x.same(sorted(v.name for v in f.data2D.data_name), sorted(v.name for v in want), "again:names", "variables after %s" % ops)
    x.same(len(f.data2D.data), len(want), "again:data", "data after %s" % ops)
    for v, (_, w) in want.items():
        d = np.array(f.data2D.data[f.data2D.data_name.index(v)], dtype=float)
        for t in range(3):
            for k in range(2):
                x.close(d[t, k], w[t][k], 1e-9, "again:value", "%s after %s" % (v.name, ops))


def run(case, x):
    kind, name = case.split("/", 1)
    x.dim(kind)
    x.step()
    x.d = x.dir()
    {"map": run_map, "gap": run_gap, "time": run_time, "doy": run_doy, "relief": run_relief, "which": run_which, "sign": run_sign, "wrong": run_wrong,
     "again": run_again}[kind](name, x)
    x.state(case)
