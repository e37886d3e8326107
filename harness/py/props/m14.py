"""M14: the hydro units cut out of a terrain are the cells that share the classes asked for, with all of the catchment in them."""
import itertools
import os
import pickle
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "shims_gis"))

import numpy as np
import pandas as pd
import rasterio

from props.common import *

if not hb.HAS_RASTERIO:
    raise RuntimeError("hydrobricks was imported before the stand-ins of the GIS libraries")

X0, Y0 = 2600000.0, 1200000.0
CRS = "EPSG:2056"


# --------------------------------------------------------------------------------------------------------------- terrain
class Land:
    """A terrain in files: the inside of the catchment with one ring of cells around, and what is known of each cell."""

    def __init__(self, x, inner, ring="edge", px=(25.0, 25.0), dtype="float32", nodata=-9999.0, out=(), outline=True, ways=None):
        self.d = x.dir("t")
        inner = np.array(inner, dtype=float)
        self.n, self.m = inner.shape[0] + 2, inner.shape[1] + 2
        z = np.pad(inner, 1, mode="edge") if ring == "edge" else np.pad(inner, 1, constant_values=ring)
        self.px = px
        self.t = (px[0], 0.0, X0, 0.0, -px[1], Y0)
        self.inside = np.zeros(z.shape, dtype=bool)
        self.inside[1:-1, 1:-1] = True
        for i, j in out:
            self.inside[i + 1, j + 1] = False
        stored = z.astype(dtype)
        self.z = stored.astype(float)
        if not outline:
            # the raster itself says what is inside
            if nodata is None:
                self.inside[:] = True
            else:
                stored[~self.inside] = nodata
        self.dem = self.d + "/dem.tif"
        rasterio.save(self.dem, dict(data=stored, transform=self.t, crs=CRS, nodata=nodata, extra={"ways": ways} if ways is not None else {}))
        self.known = stored.astype(float)
        self.outline = None
        if outline:
            self.outline = self.d + "/outline.shp"
            self.layer(self.outline, [np.argwhere(self.inside)])

    def box(self, i, j, shrink=0.2):
        w, h = self.px
        return (X0 + w * (j + shrink), Y0 - h * (i + 1 - shrink), X0 + w * (j + 1 - shrink), Y0 - h * (i + shrink))

    def layer(self, path, groups, fields=None, crs=CRS, whole=True):
        from pyproj import shift
        dx, dy = shift(CRS, crs)
        s = 0.0 if whole else 0.2
        geoms = [[tuple(v + (dx, dy)[k % 2] for k, v in enumerate(self.box(i, j, 0.001 if whole else s))) for i, j in g] for g in groups]
        with open(path, "wb") as f:
            pickle.dump(dict(crs=crs, fields=fields or {}, geoms=geoms), f)

    def raster(self, name, data, crs=CRS, nodata=None, fine=1, offset=(0, 0)):
        from pyproj import shift
        dx, dy = shift(CRS, crs)
        w, h = self.px[0] / fine, self.px[1] / fine
        t = (w, 0.0, X0 + dx + offset[1] * self.px[0], 0.0, -h, Y0 + dy - offset[0] * self.px[1])
        rasterio.save(self.d + "/" + name, dict(data=np.array(data), transform=t, crs=crs, nodata=nodata))
        return self.d + "/" + name

    def open(self, **kw):
        c = hb.Catchment(self.outline, **kw)
        c.extract_dem(self.dem)
        return c

    # what the cells are
    def slopes(self):
        """Slope (degrees) and direction of the steepest descent (degrees from the north, -1 if flat), NaN along the border."""
        z = self.known.astype("float32").astype(float)
        s, a = np.full(z.shape, np.nan), np.full(z.shape, np.nan)
        for i in range(1, self.n - 1):
            for j in range(1, self.m - 1):
                w = z[i - 1:i + 2, j - 1:j + 2]
                east = ((w[:, 2] - w[:, 0]) * (1, 2, 1)).sum() / 8
                south = ((w[2] - w[0]) * (1, 2, 1)).sum() / 8
                s[i, j] = np.degrees(np.arctan(np.hypot(east / self.px[0], south / self.px[1])))
                a[i, j] = -1 if east == 0 and south == 0 else np.degrees(np.arctan2(-east, south)) % 360
        return s, a

    def cells(self):
        return [tuple(p) for p in np.argwhere(self.inside)]

    def latlon(self, ps):
        y = np.mean([Y0 - self.px[1] * (i + .5) for i, j in ps])
        x = np.mean([X0 + self.px[0] * (j + .5) for i, j in ps])
        return y / 1e5, x / 1e5


def column(df, name, unit):
    """The values of a property, which has to be there once."""
    return [float(v) if not isinstance(v, str) else v for v in df[(name, unit)].values]


def names_of(df):
    return [c[0] for c in df.columns.tolist()]


def verify_units(x, c, land, classes, key, fractions=True, elevation=None, means=True):
    """classes: for each cell its class (None: left out).  Cells of one class make one unit and every unit is one class."""
    ids = np.array(c.map_unit_ids)
    x.check(ids.shape == (land.n, land.m), key + ":shape", "map of units of shape %s", ids.shape)
    of = {}
    for i in range(land.n):
        for j in range(land.m):
            u, k = int(ids[i, j]), classes.get((i, j))
            if k is None:
                x.check(u == 0, key + ":outside", "cell %s is not to be in a unit but is in %d", (i, j), u)
                continue
            x.check(u != 0, key + ":lost", "cell %s (elevation %s) of class %s is in no unit", (i, j), land.z[i, j], k)
            x.check(of.setdefault(k, u) == u, key + ":split", "cells of class %s are in units %s and %d", k, of[k], u)
    x.check(len(set(of.values())) == len(of), key + ":merged", "several classes in one unit: %s", of)
    x.step(land.n * land.m)
    df = c.hydro_units.hydro_units
    cols = df.columns.tolist()
    x.check(len(set(cols)) == len(cols), key + ":columns", "columns told twice: %s", [k for k in cols if cols.count(k) > 1])
    got = [int(v) for v in column(df, "id", "-")]
    x.same(sorted(got), sorted(of.values()), key + ":ids", "identifiers of the units")
    x.same(sorted(got), list(range(1, len(of) + 1)), key + ":numbers", "numbering of the units")
    s, a = land.slopes()
    groups = {u: [p for p in classes if classes[p] == k] for k, u in of.items()}
    cell = land.px[0] * land.px[1]
    x.close(column(df, "area", "m2"), [len(groups[u]) * cell for u in got], 1e-9, key + ":area", "areas of the units")
    x.close(c.area, sum(len(g) for g in groups.values()) * cell, 1e-9, key + ":total", "area of the catchment")
    if means:
        x.close(column(df, "elevation_mean", "m"), [np.mean([land.z[p] for p in groups[u]]) for u in got], 6e-6, key + ":mean", "mean elevations")
        with np.errstate(all="ignore"):
            x.close(column(df, "slope", "deg"), [np.mean([s[p] for p in groups[u]]) for u in got], 6e-3, key + ":slope", "mean slopes")
        for u, v in zip(got, column(df, "aspect", "deg")):
            w = np.radians([a[p] for p in groups[u]])
            e, n = np.sin(w).mean(), np.cos(w).mean()
            if np.hypot(e, n) > 1e-3:
                d = (v - np.degrees(np.arctan2(e, n))) % 360
                x.check(0 <= v <= 360 and min(d, 360 - d) < 1e-2, key + ":aspect", "mean aspect of unit %d: got %s, expected %s", u, v,
                        np.degrees(np.arctan2(e, n)) % 360)
        ll = [land.latlon(groups[u]) for u in got]
        x.close(column(df, "latitude", "deg"), [v[0] for v in ll], 1e-9, key + ":lat", "latitudes")
        x.close(column(df, "longitude", "deg"), [v[1] for v in ll], 1e-9, key + ":lon", "longitudes")
    if fractions:
        for n in c.hydro_units.land_cover_names:
            want = 1.0 if n == c.hydro_units.get_generic_cover_name() else 0.0
            x.close(column(df, "fraction-" + n, "fraction"), [want] * len(got), 0, key + ":fractions", "fractions of " + n)
    x.same(c.get_hydro_unit_count(), len(of), key + ":count", "number of units")
    x.same(len(c.hydro_units.get_ids()), len(of), key + ":count", "number of identifiers")
    x.state(tuple(sorted(of)), len(of))
    return {u: k for k, u in of.items()}, groups


# --------------------------------------------------------------------------------------------------------------- classes
def bands(values, ps, method, number, distance, lo, hi):
    """Class of each cell and (min, max) of each class."""
    v = {p: values[p] for p in ps if not np.isnan(values[p])}
    if method == "equal_intervals":
        if lo is None:
            lo = np.floor(min(v.values()) / distance) * distance if v else 0
        k = {p: int(np.floor((q - lo) / distance)) if q >= lo and (hi is None or q < lo + np.ceil((hi - lo) / distance) * distance) else None
             for p, q in v.items()}
        return k, lambda b: (lo + b * distance, lo + (b + 1) * distance)
    edges = np.quantile(list(v.values()), np.linspace(0, 1, number + 1))
    k = {}
    for p, q in v.items():
        below = [b for b in range(number) if edges[b] <= q < edges[b + 1]]
        k[p] = below[0] if below else number - 1
    return k, lambda b: (edges[b], edges[b + 1])


ELEV = [1000.0, 1024.5, 1050.0, 1099.5, 1100.0, 1130.0]
HOW = ["e50", "e30", "e100", "e50+1000", "e50+1000-1100", "e50+900-1200", "e50-1100", "e40+1010", "q1", "q2", "q3", "q5", "q25"]


def how(s):
    if s[0] == "q":
        return dict(method="quantiles", number=int(s[1:])), ("quantiles", int(s[1:]), None, None, None)
    s, _, hi = s[1:].partition("-")
    d, _, lo = s.partition("+")
    lo, hi = int(lo) if lo else None, int(hi) if hi else None
    kw = dict(method="equal_intervals", distance=int(d))
    if lo is not None:
        kw["min_elevation"] = lo
    if hi is not None:
        kw["max_elevation"] = hi
    return kw, ("equal_intervals", None, int(d), lo, hi)


RASTERS = {"f": dict(), "n": dict(nodata=float("nan")), "i": dict(dtype="int16", nodata=-9999), "0": dict(nodata=None),
           "u": dict(dtype="uint16", nodata=0), "d": dict(dtype="float64", nodata=-3.4e38), "I": dict(dtype="int16", nodata=None)}
GRIDS = ["1x1", "1x2", "1x3", "2x2", "2x3"]


def grid_of(word, shape):
    n, m = map(int, shape.split("x"))
    return np.array([ELEV[int(k)] for k in word]).reshape(n, m)


def rounded(land, v):
    return v


def run_bands(name, x):
    shape, word, h, r, o, p = name.split("/")
    inner = grid_of(word, shape)
    out = {"-": [], "o": [(0, 0)], "w": []}[o]
    if out and inner.size == 1:
        return
    land = Land(x, inner, out=out, outline=o != "w", px=(25.0, 25.0) if p == "s" else (20.0, 10.0), **RASTERS[r])
    if o == "w" and RASTERS[r].get("nodata", 1) is None:
        means = True
    c = land.open(**({} if p == "s" else dict(land_cover_types=["glacier", "open"], land_cover_names=["ice", "soil"])))
    kw, args = how(h)
    ps = land.cells()
    x.close(c.get_mean_elevation(), np.mean([land.z[q] for q in ps]), 1e-5, "mean-elevation", "mean elevation of the catchment")
    want, limits = bands(land.z, ps, *args)
    if not any(v is not None for v in want.values()):
        return
    c.create_elevation_bands(**kw)
    # slopes along the border of the raster are not defined, nor are those next to cells without data
    units, groups = verify_units(x, c, land, want, "bands", means=land.outline is not None)
    df = c.hydro_units.hydro_units
    for u, e, a, b in zip(column(df, "id", "-"), column(df, "elevation", "m"), column(df, "elevation_min", "m"), column(df, "elevation_max", "m")):
        lim = limits(units[int(u)])
        x.close([a, b, e], [lim[0], lim[1], (lim[0] + lim[1]) / 2], 1e-5, "bands:limits", "limits and elevation of the unit of %s" % (lim,))
    x.dim("discretizations")


# ---------------------------------------------------------------------------------------------------- combined criteria
TERRAIN = {
    "flat": [[1000, 1000, 1000], [1000, 1000, 1000]],
    "east": [[1000, 1020, 1040], [1000, 1020, 1040]],
    "north": [[1000, 1000, 1000], [1030, 1030, 1030]],
    "peak": [[1000, 1010, 1000], [1010, 1060, 1010], [1000, 1010, 1000]],
    "lake": [[1000, 1000, 1000, 1000], [1000, 1000, 1000, 1000], [1000, 1000, 1000, 1090]],
    "cut": [[1000, 1049, 1100], [1050, 1149, 1075], [1125, 1020, 1030]],
    "steep": [[1000, 1200], [1010, 1100]],
    "ridge": [[1040, 1000, 1030], [1041, 1001, 1031], [1042, 1002, 1032]],
}
CRIT = ["elevation", "slope", "aspect", "radiation", "sub_catchments"]
ASPECT = lambda a: None if np.isnan(a) else "NESW"[int(((a + 45) % 360) // 90)]


def split(land, parts):
    """Sub-catchments: list of lists of cells, for the files; class of each cell: the first that has it."""
    return {p: next((k for k, g in enumerate(parts) if p in g), None) for p in land.cells()}


def parts_of(land, how):
    ps = land.cells()
    if how == "halves":
        return [[p for p in ps if p[1] <= land.m // 2 - 1], [p for p in ps if p[1] > land.m // 2 - 1]]
    if how == "overlap":
        return [[p for p in ps if p[0] == 1], [p for p in ps if p[1] <= 2] + [p for p in ps if p[0] == 2], ps]
    if how == "one":
        return [ps]
    if how == "beyond":
        return [[(0, 0)], [p for p in ps if (p[0] + p[1]) % 2 == 0], [p for p in ps if (p[0] + p[1]) % 2], [(land.n - 1, land.m - 1)]]
    raise KeyError(how)


METHODS = ["e", "q", "m"]


def prepare(x, terrain, criteria, method, sub, extra=None, order=None):
    """Catchment, its land, arguments of the discretization, and the class of each cell."""
    land = Land(x, TERRAIN[terrain], **(extra or {}))
    c = land.open()
    return land, c, *arguments(x, land, c, criteria, method, sub)


def arguments(x, land, c, criteria, method, sub):
    ps = land.cells()
    s, a = land.slopes()
    kw, cls = {}, []
    for k in criteria:
        if k == "elevation":
            if method == "e":
                kw["elevation_distance"] = 50
                cls.append(bands(land.z, ps, "equal_intervals", None, 50, None, None)[0])
            elif method == "q":
                kw.update(elevation_method="quantiles", elevation_number=3)
                cls.append(bands(land.z, ps, "quantiles", 3, None, None, None)[0])
            else:
                kw.update(elevation_distance=40, min_elevation=1000, max_elevation=1120)
                cls.append(bands(land.z, ps, "equal_intervals", None, 40, 1000, 1120)[0])
        elif k == "slope":
            s32 = s.astype("float32").astype(float)
            if method == "e":
                cls.append(bands(s32, ps, "equal_intervals", None, 15, 0, 90)[0])
            elif method == "q":
                kw.update(slope_method="quantiles", slope_number=2)
                cls.append(bands(np.array(c.topography.slope) if c.topography.slope is not None else s32, ps, "quantiles", 2, None, None, None)[0])
            else:
                kw.update(slope_distance=20, min_slope=None, max_slope=None)
                cls.append(bands(s32, ps, "equal_intervals", None, 20, None, None)[0])
        elif k == "aspect":
            cls.append({p: ASPECT(a[p]) for p in ps})
        elif k == "radiation":
            r = np.array([[100 + 31 * ((i * 3 + j * 5) % 7) for j in range(land.m)] for i in range(land.n)], dtype="float64")
            r[~land.inside] = 5.0  # what is outside does not matter
            land.raster("radiation.tif", r)
            c.load_mean_annual_radiation_raster(land.d, "radiation.tif")
            if method == "e":
                cls.append(bands(r, ps, "equal_intervals", None, 50, None, None)[0])
            elif method == "q":
                kw.update(radiation_method="quantiles", radiation_number=4)
                cls.append(bands(r, ps, "quantiles", 4, None, None, None)[0])
            else:
                kw.update(radiation_distance=60, min_radiation=90, max_radiation=250)
                cls.append(bands(r, ps, "equal_intervals", None, 60, 90, 250)[0])
        else:
            parts = parts_of(land, sub)
            f = land.d + "/sub.shp"
            land.layer(f, parts, crs="EPSG:21781" if method == "q" else CRS)
            kw["sub_catchments"] = f
            cls.append(split(land, parts))
    keys = {p: tuple(k.get(p) for k in cls) for p in ps}
    return kw, {p: None if None in k else k for p, k in keys.items()}


def run_crit(name, x):
    terrain, crit, method, sub = name.split("/")
    criteria = [CRIT[int(k)] for k in crit]
    land, c, kw, want = prepare(x, terrain, criteria, method, sub)
    if not any(v is not None for v in want.values()):
        return
    # near a limit of slope or aspect the last digit decides
    s, a = land.slopes()
    for p in land.cells():
        if "slope" in criteria and min(abs(s[p] / d - round(s[p] / d)) for d in (15, 20)) < 1e-4 and s[p] > 1e-3:
            return
    c.discretize_by(criteria if len(criteria) > 1 or len(terrain) % 2 else criteria[0], **kw)
    units, groups = verify_units(x, c, land, want, "criteria")
    df = c.hydro_units.hydro_units
    got = [int(v) for v in column(df, "id", "-")]
    if "aspect" in criteria:
        for u, v in zip(got, column(df, "aspect_class", "-")):
            x.same(v, units[u][criteria.index("aspect")], "criteria:aspect", "aspect class of unit %d" % u)
    if "sub_catchments" in criteria:
        for u, v in zip(got, df[("sub_catchment", "-")].values):
            x.same(str(v), str(units[u][criteria.index("sub_catchments")] + 1), "criteria:sub", "sub-catchment of unit %d" % u)
    for k, unit in (("elevation", "m"), ("slope", "deg"), ("radiation", "W/m2")):
        if k not in criteria:
            if k == "elevation":
                z = [[land.z[p] for p in groups[u]] for u in got]
                x.close(column(df, k, unit), [np.mean(v) for v in z], 1e-5, "criteria:values", k)
                x.close(column(df, k + "_min", unit), [np.min(v) for v in z], 1e-5, "criteria:values", k)
                x.close(column(df, k + "_max", unit), [np.max(v) for v in z], 1e-5, "criteria:values", k)
            continue
        lo, hi = column(df, k + "_min", unit), column(df, k + "_max", unit)
        v = {"elevation": land.z, "slope": s, "radiation": None}[k]
        for u, a, b in zip(got, lo, hi):
            for p in groups[u]:
                if v is not None:
                    x.check(a - 0.0051 <= v[p] <= b + 0.0051, "criteria:limits", "%s of cell %s of unit %d is %s, not within %s and %s", k, p, u, v[p], a, b)
        if k != "slope":
            x.check(np.abs(np.array(column(df, k, unit)) - (np.array(lo) + hi) / 2).max() < 0.011, "criteria:mid", k + " of the units")
    x.dim("combinations")


# ------------------------------------------------------------------------------------------------ one thing after another
STEPS = ["0/e", "0/q", "0/m", "1/e", "2/e", "02/e", "20/e", "3/e", "4/e", "04/q", "012/e", "1/q", "13/m"]


def table(c):
    df = c.hydro_units.hydro_units
    return {k[0]: [v if isinstance(v, str) else round(float(v), 9) for v in df[k].values] for k in df.columns.tolist() if k[0] != "connectivity"}


def run_again(name, x):
    terrain, first, second, between = name.split("|")
    ready = []
    for script in ([first, second], [second]):
        land = Land(x, TERRAIN[terrain])
        c = land.open(land_cover_types=["open", "glacier"], land_cover_names=["open", "glacier"])
        for s in script:
            crit, method = s.split("/")
            criteria = [CRIT[int(k)] for k in crit]
            kw, want = arguments(x, land, c, criteria, method, "halves")
            if not any(v is not None for v in want.values()):
                return
            c.discretize_by(criteria, **kw)
            if s is script[0] and len(script) == 2:
                if between == "cover":
                    c.initialize_area_from_land_cover_change("glacier", pd.DataFrame({"hydro_unit": [1], "area": [land.px[0] * land.px[1] / 2]}))
                elif between == "attributes":
                    c.get_hydro_units_attributes()
        ready.append((c, land, want))
    (a, land, want), (b, _, _) = ready
    x.check(np.array_equal(np.array(a.map_unit_ids), np.array(b.map_unit_ids)), "again:map", "the map of the units depends on what was done before")
    ta, tb = table(a), table(b)
    x.same(sorted(ta), sorted(tb), "again:columns", "properties after another discretization")
    for k in tb:
        x.same(ta[k], tb[k], "again:values", "property %s after another discretization" % k)
    verify_units(x, a, land, want, "again")
    x.same(a.area, b.area, "again:area", "area")
    x.dim("repeated")


def run_files(name, x):
    """Units saved to files and read again, in a catchment with or without outline."""
    terrain, crit, method, sub = name.split("/")
    criteria = [CRIT[int(k)] for k in crit]
    land, c, kw, want = prepare(x, terrain, criteria, method, sub)
    if not any(v is not None for v in want.values()):
        return
    c.discretize_by(criteria, **kw)
    c.save_unit_ids_raster(land.d)
    c.save_hydro_units_to_csv(land.d + "/units.csv")
    first = table(c)
    ids = np.array(c.map_unit_ids)
    for how in ("file", "folder", "no outline"):
        o = hb.Catchment(land.outline if how != "no outline" else None)
        o.extract_dem(land.dem)
        o.load_unit_ids_from_raster(land.d + "/unit_ids.tif" if how == "file" else land.d)
        x.check(np.array_equal(np.array(o.map_unit_ids), ids), "files:map", "map of the units read from the %s", how)
        t = table(hb_units(o.get_hydro_units_attributes()))
        for k in ("id", "area", "elevation_mean", "slope", "aspect", "latitude", "longitude"):
            x.same(t[k], first[k], "files:attributes", "%s of the units read from the %s" % (k, how))
        x.close(o.area, c.area, 1e-9, "files:area", "area of the catchment")
    o = land.open()
    o.load_hydro_units_from_csv(land.d + "/units.csv")
    t = table(o)
    for k in ("id", "area", "elevation"):
        x.close(t[k], first[k], 1e-9, "files:table", k + " of the units read from the table")
    x.dim("files")


class hb_units:
    def __init__(self, hu):
        self.hydro_units = hu


# ---------------------------------------------------------------------------------------------------------- connectivity
STEP = {1: (0, 1), 2: (1, 1), 4: (1, 0), 8: (1, -1), 16: (0, -1), 32: (-1, -1), 64: (-1, 0), 128: (-1, 1), 0: None}
CODES = [0, 1, 2, 4, 8, 16, 32, 64, 128]


def flow(ways, ids, mode, force, precision):
    """Connections between units, told again: every cell whose water leaves its unit brings the water of the cells of the unit upstream."""
    n, m = ids.shape

    def down(p):
        s = STEP[int(ways[p])]
        if s is None:
            return None
        q = (p[0] + s[0], p[1] + s[1])
        return q if 0 <= q[0] < n and 0 <= q[1] < m else None

    links = {int(u): {} for u in np.unique(ids) if u}
    for p in np.ndindex(n, m):
        if not ids[p]:
            continue
        q = p
        while q is not None and ids[q] == ids[p]:
            last, q = q, down(q)
        if q is not None:
            k = links[int(ids[p])]
            k[int(ids[q])] = k.get(int(ids[q]), 0) + 1
    out = {}
    for u, k in links.items():
        inside = {v: w for v, w in k.items() if v}
        if force:
            if not inside:
                near = {}
                touch = set()
                for i, j in np.argwhere(ids == u):
                    for a, b in ((i + 1, j), (i - 1, j), (i, j + 1), (i, j - 1)):
                        if 0 <= a < n and 0 <= b < m and ids[a, b] not in (0, u):
                            touch.add((a, b))
                for q in touch:
                    near[int(ids[q])] = near.get(int(ids[q]), 0) + 1
                inside = near
        elif k and k.get(0, 0) > max([0] + list(inside.values())):
            inside = {}
        elif k and k.get(0, 0) == max([0] + list(inside.values())):
            out[u] = None   # as much leaves the catchment as goes to the main unit: either
            continue
        if not inside:
            out[u] = {}
            continue
        total = sum(inside.values())
        share = {v: w / total for v, w in inside.items()}
        share = {v: w for v, w in share.items() if w >= 0.01}
        total = sum(share.values())
        out[u] = {v: w / total for v, w in share.items()}
    return out


def acyclic(ways):
    n, m = ways.shape
    for p in np.ndindex(n, m):
        q, k = p, 0
        while True:
            s = STEP[int(ways[q])]
            if s is None:
                break
            q = (q[0] + s[0], q[1] + s[1])
            k += 1
            if not (0 <= q[0] < n and 0 <= q[1] < m):
                break
            if k > n * m:
                return False
    return True


def verify_links(x, df, ways, ids, mode, force, precision, key):
    want = flow(ways, ids, mode, force, precision)
    got = {int(u): c for u, c in zip(df[("id", "-")].values, df[("connectivity", "-")].values)}
    x.same(sorted(got), sorted(want), key + ":units", "units of the connectivity")
    for u, w in want.items():
        g = {int(k): float(v) for k, v in got[u].items()}
        x.check(0 not in g and u not in g and set(g) <= set(want), key + ":targets", "unit %d is connected to %s", u, sorted(g))
        if g:
            x.check(all(0 <= v <= 1 for v in g.values()) and abs(sum(g.values()) - 1) < 1e-9, key + ":sum", "shares of unit %d: %s", u, g)
        if w is None:
            continue
        if mode == "single":
            x.check(len(g) == (1 if w else 0), key + ":single", "connections of unit %d: %s, flows %s", u, g, w)
            if w:
                x.check(w[list(g)[0]] == max(w.values()), key + ":main", "unit %d is connected to %s, flows %s", u, g, w)
        else:
            x.same(sorted(k for k in w), sorted(g), key + ":who", "units below unit %d" % u)
            for k in w:
                x.check(abs(g[k] - w[k]) <= 10.0 ** -precision + 1e-12, key + ":share", "share of unit %d that goes to %d: got %s, expected %s", u, k, g[k], w[k])
                x.check(abs(g[k] * 10 ** precision - round(g[k] * 10 ** precision)) < 1e-6, key + ":digits", "share %s with %d digits", g[k], precision)
    x.step(ids.size)


def connect(x, todo, ids, key):
    """The units are put on the map through the file of their identifiers; todo: the ways of the water and the options, one after the other."""
    n, m = ids.shape
    land = Land(x, np.full((n, m), 1000.0), ways=np.zeros((n + 2, m + 2), dtype=int))
    big = np.pad(ids, 1)
    f = land.raster("unit_ids.tif", big.astype("uint16"), nodata=0)
    c = None
    for k, (ways, opts) in enumerate(todo):
        ways = np.pad(ways, 1)
        rasterio.save(land.dem, dict(data=land.known.astype("float32"), transform=land.t, crs=CRS, nodata=-9999.0, extra={"ways": ways}))
        for mode, force, precision in opts:
            if c is None or k % 16 == 0:
                c = land.open()
                c.load_unit_ids_from_raster(f)
                c.get_hydro_units_attributes()
            df = c.calculate_connectivity(mode=mode, force_connectivity=force, precision=precision)
            verify_links(x, df, ways, big, mode, force, precision, key)
            kept = c.hydro_units.hydro_units[("connectivity", "-")].values
            x.same([dict(v) for v in kept], [dict(v) for v in df[("connectivity", "-")].values], key + ":kept", "connectivity kept with the units")
            if k % 16 == 0:
                c.hydro_units.populate_bounded_instance()
                c.hydro_units.set_connectivity(df)
            x.dim("connectivities")
        x.state(key, ways.tobytes(), ids.tobytes())


OPTS = [("multiple", False, 3), ("multiple", True, 3), ("single", False, 3), ("single", True, 3), ("multiple", False, 2), ("multiple", True, 1)]
MAPS = {"2x2": ["1234", "1123", "1122", "1212", "1221", "0123", "0121", "1112"], "1x4": ["1234", "1212", "1122", "0121", "1232"],
        "2x3": ["112233", "123456", "111222", "121212", "012120", "123321", "110023"]}


def run_flow(name, x):
    shape, map_, first = name.split("/")
    n, m = map(int, shape.split("x"))
    ids = np.array([int(k) for k in map_]).reshape(n, m)
    codes = CODES if shape != "2x3" else [0, 1, 4, 16, 2]
    todo = list(itertools.product(codes, repeat=n * m - len(first.split(","))))
    head = [int(k) for k in first.split(",")]
    todo = [np.array(head + list(rest)).reshape(n, m) for rest in todo]
    connect(x, [(w, [OPTS[k % len(OPTS)]] if x.tier == "quick" else OPTS) for k, w in enumerate(todo) if acyclic(w)], ids, "flow")


def run_wide(name, x):
    """Rows of many cells, so that shares are small: n cells upstream, splits at chosen places."""
    a, b, c_, extra = map(int, name.split("/"))
    # unit 1 is a comb of a + b + c cells whose teeth flow to units 2, 3 and 4
    rows = []
    w = a + b + c_
    ids = np.zeros((2, w + 1), dtype=int)
    ids[0, :w] = 1
    ids[1, :a], ids[1, a:a + b], ids[1, a + b:w] = 2, 3, 4
    ways = np.zeros((2, w + 1), dtype=int)
    ways[0, :w] = 4
    if extra:
        ways[0, w - extra:w] = 64   # these leave the catchment
    connect(x, [(ways, OPTS)], ids, "wide")


# ----------------------------------------------------------------------------------------------------------- land covers
MAPPINGS = {"a": {10: "forest", 70: "glacier"}, "b": {70: "glacier", 30: "open", 80: "lake"}, "c": {10: "forest", 20: "forest", 30: "urban"},
            "d": {10: "ground", 70: "glacier"}, "e": {0: "lake", 10: "forest"}}
KIND = {"forest": "forest", "glacier": "glacier", "lake": "lake", "open": "open", "urban": "generic_land_cover", "ground": "generic_land_cover"}
WORLDCOVER = {10: "forest", 20: "open", 30: "open", 40: "open", 50: "open", 60: "open", 70: "glacier", 80: "lake", 90: "lake", 95: "lake", 100: "open"}
SETS = {"-": (None, None), "g": (["glacier", "open"], ["glacier", "open"]), "r": (["open", "glacier", "forest"], ["soil", "glacier", "forest"])}
GENERIC = ("open", "ground", "generic", "generic_land_cover")


def verify_covers(x, c, land, groups, cover, key):
    """cover: name of the cover of each cell (None: the soil)."""
    hu = c.hydro_units
    df = hu.hydro_units
    x.check(len(set(hu.land_cover_names)) == len(hu.land_cover_names) == len(hu.land_cover_types), key + ":names", "covers %s", hu.land_cover_names)
    soil = hu.get_generic_cover_name()
    ids = [int(v) for v in column(df, "id", "-")]
    total = np.zeros(len(ids))
    for n, t in zip(hu.land_cover_names, hu.land_cover_types):
        f = np.array(column(df, "fraction-" + n, "fraction"))
        total += f
        if n != soil and t not in GENERIC:
            want = [sum(cover.get(p) == n for p in groups[u]) / len(groups[u]) for u in ids]
            x.close(f, want, 1e-9, key + ":fraction", "fractions of " + n)
    x.close(total, np.ones(len(ids)), 1e-9, key + ":sum", "sum of the fractions")
    want = [1 - sum(cover.get(p) is not None and KIND.get(cover[p]) not in GENERIC for p in groups[u]) / len(groups[u]) for u in ids]
    f = sum(np.array(column(df, "fraction-" + n, "fraction")) for n, t in zip(hu.land_cover_names, hu.land_cover_types) if n in GENERIC or t in GENERIC)
    x.close(f, want, 1e-9, key + ":soil", "what is left to the soil")
    for n in set(v for v in cover.values() if v):
        if KIND[n] in GENERIC:
            continue
        x.check(n in hu.land_cover_names, key + ":registered", "cover %s is not known: %s", n, hu.land_cover_names)
        x.same(hu.land_cover_types[hu.land_cover_names.index(n)], KIND[n], key + ":type", "type of " + n)


def run_cover(name, x):
    kind, word, mp, st, how = name.split("/")
    land = Land(x, [[1000, 1060, 1010], [1070, 1065, 1020]], out=[(1, 2)] if how == "o" else [])
    types, names = SETS[st]
    c = land.open(**(dict(land_cover_types=types, land_cover_names=names) if types else {}))
    mapping = MAPPINGS[mp] if mp in MAPPINGS else None
    arg = dict(mapping=dict(mapping)) if mapping else dict(dataset="esa_worldcover")
    if mapping is None:
        mapping = dict(WORLDCOVER)
    if how == "p":
        arg["dataset"] = "esa_worldcover"
        mapping = dict(WORLDCOVER, **{}) | mapping
    code = {"f": 10, "s": 20, "m": 30, "i": 70, "w": 80, "x": 55, "-": 0}
    cells = [(1 + i // 3, 1 + i % 3) for i in range(6)]
    what = {p: code[k] for p, k in zip(cells, word)}
    if kind == "r":
        a = np.zeros((land.n, land.m), dtype="uint8" if how != "n" else "float32")
        for p, k in what.items():
            a[p] = k
        nodata = 0 if how in ("d", "n") else None
        if nodata == 0 and 0 in mapping:
            return
        if how == "n":
            a[a == 0] = np.nan
            nodata = float("nan")
        path = land.raster("cover.tif", a, crs="EPSG:21781" if how in ("c", "d") else CRS, nodata=nodata)
        call = lambda: c.extract_land_cover_from_raster(path, **arg)
    else:
        keys = list(dict.fromkeys(what[p] for p in cells if what[p]))
        groups = [[p for p in cells if what[p] == k] for k in keys]
        if not keys:
            return
        if how == "t":      # every feature reaches over to the next cell on its right: the first class of the mapping wins
            groups = [g + [(p[0], p[1] + 1) for p in g] for g in groups]
        path = land.d + "/cover.shp"
        land.layer(path, groups, {"class": keys, "other": [0] * len(keys)}, crs="EPSG:32632" if how == "c" else CRS, whole=how != "s")
        call = lambda: c.extract_land_cover_from_shapefile(path, class_field="class", all_touched=how != "s", **arg)
        full = dict(zip(keys, groups))
        what = {}
        for p in cells:
            ks = [k for k in mapping if p in full.get(k, [])]
            what[p] = ks[0] if ks else None
    err = refused(call, hb.ConfigurationError)
    x.check(err is not None, "cover:early", "land cover before any unit")
    c.create_elevation_bands(distance=50)
    units, groups = verify_units(x, c, land, bands(land.z, land.cells(), "equal_intervals", None, 50, None, None)[0], "cover")
    call()
    verify_covers(x, c, land, groups, {p: mapping.get(what[p]) for p in land.cells()}, "cover")
    x.step(6)
    x.dim("covers")
    x.state(name)


def run_wrong(name, x):
    land = Land(x, [[1000, 1060, 1010], [1070, 1065, 1020]])
    c = land.open()
    r = land.raster("cover.tif", np.full((land.n, land.m), 10, dtype="uint8"))
    land.layer(land.d + "/v.shp", [land.cells()], {"class": [10]})
    land.layer(land.d + "/empty.shp", [])
    land.layer(land.d + "/part.shp", [land.cells()[:-1]])
    bad = land.raster("other.tif", np.full((land.n, land.m), 10.0), crs="EPSG:21781")
    CE, DE, ME = hb.ConfigurationError, hb.DataError, hb.ModelError
    HE = hb.HydroBricksError
    t = {
        "method": lambda: c.create_elevation_bands(method="equal"),
        "slope-method": lambda: c.discretize_by("slope", slope_method="x"),
        "radiation-method": lambda: c.discretize_by("radiation", radiation_method="x"),
        "no-radiation": lambda: c.discretize_by(["elevation", "radiation"]),
        "no-sub": lambda: c.discretize_by("sub_catchments"),
        "empty-sub": lambda: c.discretize_by("sub_catchments", sub_catchments=land.d + "/empty.shp"),
        "part-sub": lambda: c.discretize_by(["elevation", "sub_catchments"], sub_catchments=land.d + "/part.shp"),
        "criterion": lambda: c.discretize_by("altitude"),
        "criteria": lambda: c.discretize_by(["elevation", "aspects"]),
        "bands-0": lambda: c.create_elevation_bands(method="quantiles", number=0),
        "distance-0": lambda: c.create_elevation_bands(distance=0),
        "distance-neg": lambda: c.create_elevation_bands(distance=-50),
        "nothing-within": lambda: c.create_elevation_bands(distance=50, min_elevation=3000, max_elevation=4000),
        "outline": lambda: hb.Catchment(land.d + "/none.shp"),
        "dem": lambda: land.open().extract_dem(land.d + "/none.tif"),
        "dem-crs": lambda: c.extract_dem(bad),
        "attribute": lambda: c.extract_attribute_raster(land.d + "/none.tif", "a"),
        "attribute-crs": lambda: c.extract_attribute_raster(bad, "a"),
        "resampling": lambda: c.extract_attribute_raster(r, "a", resampling="x"),
        "no-dem": lambda: hb.Catchment(land.outline).extract_attribute_raster(r, "a"),
        "flow-early": lambda: c.calculate_connectivity(),
        "flow-no-dem": lambda: hb.Catchment(land.outline).calculate_connectivity(),
        "save-early": lambda: c.save_unit_ids_raster(land.d),
        "cover-mapping": lambda: (c.create_elevation_bands(), c.extract_land_cover_from_raster(r)),
        "cover-dataset": lambda: (c.create_elevation_bands(), c.extract_land_cover_from_raster(r, dataset="esa")),
        "cover-field": lambda: (c.create_elevation_bands(), c.extract_land_cover_from_shapefile(land.d + "/v.shp", class_field="classe", mapping={10: "lake"})),
        "cover-generic": lambda: (c.create_elevation_bands(), c.initialize_area_from_land_cover_change("open", pd.DataFrame({"hydro_unit": [1], "area": [1.0]}))),
        "cover-early": lambda: c.initialize_area_from_land_cover_change("glacier", pd.DataFrame({"hydro_unit": [1], "area": [1.0]})),
        "get-resolution": lambda: c.get_attribute_raster_x_resolution("none"),
        "get-resolution-y": lambda: c.get_attribute_raster_y_resolution("none"),
        "flow-mode": lambda: (c.create_elevation_bands(), flow_land(x).calculate_connectivity(mode="both")),
        "cast-pixels": lambda: cast(land),
    }
    e = refused(t[name], HE)
    x.check(e is not None, "wrong:" + name, "not refused")
    x.check(len(str(e)) > 10, "wrong:message", "message %r", str(e))


WRONG = ["method", "slope-method", "radiation-method", "no-radiation", "no-sub", "empty-sub", "part-sub", "criterion", "criteria", "bands-0",
         "distance-0", "distance-neg", "nothing-within", "outline", "dem", "dem-crs", "attribute", "attribute-crs", "resampling", "no-dem", "flow-early",
         "flow-no-dem", "save-early", "cover-mapping", "cover-dataset", "cover-field", "cover-generic", "cover-early", "get-resolution",
         "get-resolution-y", "flow-mode"]


def flow_land(x):
    land = Land(x, np.full((2, 2), 1000.0), ways=np.zeros((4, 4), dtype=int))
    c = land.open()
    c.create_elevation_bands()
    return c


# --------------------------------------------------------------------------------------------------------------- rasters
def run_raster(name, x):
    """An attribute of the cells, read as it is or brought to the cells of the terrain."""
    how, word, kind, nans, fine = name.split("/")
    land = Land(x, [[1000, 1060], [1070, 1065]])
    c = land.open()
    fine = int(fine)
    v = np.zeros((land.n * fine, land.m * fine), dtype={"f": "float32", "i": "int16"}[kind])
    k = 0
    for i in range(v.shape[0]):
        for j in range(v.shape[1]):
            v[i, j] = {"0": 0, "1": 3, "2": 8, "-": -99}[word[k % len(word)]]
            k += 1
    path = land.raster("a.tif", v, nodata=-99, fine=fine)
    keep = dict(replace_nans_by_zeros=nans == "z")
    asis = how == "none"
    ok = c.extract_attribute_raster(path, "a", resample_to_dem_resolution=not asis, **({} if asis else dict(resampling=how)), **keep)
    x.check(ok is True, "raster:ok", "returned %r", ok)
    got = np.array(c.attributes["a"]["data"], dtype=float)
    inside = np.repeat(np.repeat(land.inside, fine, 0), fine, 1)
    src = np.where((v == -99) | ~inside, np.nan, v.astype(float))
    if nans == "z":
        src = np.where(np.isnan(src), 0.0, src)
    if asis:
        want = src
    else:
        want = np.zeros((land.n, land.m))
        for i in range(land.n):
            for j in range(land.m):
                b = src[i * fine:(i + 1) * fine, j * fine:(j + 1) * fine].ravel()
                if how == "nearest":
                    q = src[int((i + .5) * fine), int((j + .5) * fine)]
                    want[i, j] = q
                    continue
                b = b[~np.isnan(b)]
                want[i, j] = 0 if not b.size else {"average": np.mean, "max": np.max, "min": np.min, "sum": np.sum}[how](b)
    x.close(got, want, 1e-6, "raster:values", "values of the attribute")
    res = (land.px[0], land.px[1]) if not asis else (land.px[0] / fine, land.px[1] / fine)
    x.close([c.get_attribute_raster_x_resolution("a"), c.get_attribute_raster_y_resolution("a")], res, 1e-9, "raster:resolution", "resolution of the attribute")
    x.close([c.get_dem_x_resolution(), c.get_dem_y_resolution(), c.get_dem_pixel_area()], [25, 25, 625], 1e-9, "raster:dem", "resolution of the terrain")
    x.close(np.array(c.dem_data)[land.inside], land.z[land.inside], 1e-9, "raster:terrain", "the terrain afterwards")
    c.close()
    x.dim("attributes")


# ------------------------------------------------------------------------------------------------------------------ cases
def cases(tier):
    q = tier == "quick"
    n = 0
    for shape in GRIDS:
        size = eval(shape.replace("x", "*"))
        alpha = range(6) if size <= 3 or not q else (0, 2, 4) if size == 4 else (1, 4)
        if not q and size == 6:
            alpha = (0, 2, 4)
        for w in itertools.product(alpha, repeat=size):
            word = "".join(map(str, w))
            todo = list(itertools.product(HOW, RASTERS, "-ow", "sp"))
            step = 47 if q else 5
            for i in range(n % step, len(todo), step):
                yield "bands/%s/%s/%s" % (shape, word, "/".join(todo[i]))
            n += 1
    for t in TERRAIN:
        for r in range(1, 6):
            for crit in itertools.permutations("01234", r):
                if r > 2 and list(crit) != sorted(crit) and q and list(crit) != sorted(crit, reverse=True):
                    continue
                for m in METHODS:
                    for sub in (["halves", "overlap", "one", "beyond"] if "4" in crit and (r < 3 or not q) else ["halves"]):
                        yield "crit/%s/%s/%s/%s" % (t, "".join(crit), m, sub)
    for t in (["cut", "lake"] if q else TERRAIN):
        for a, b in itertools.product(STEPS, repeat=2):
            for k in ("-", "cover", "attributes"):
                yield "again/%s|%s|%s|%s" % (t, a, b, k)
    for t in TERRAIN:
        for crit, m in [("0", "e"), ("0", "q"), ("02", "e"), ("012", "m"), ("4", "e"), ("24", "e"), ("1", "e"), ("13", "q"), ("3", "m")]:
            yield "files/%s/%s/%s/halves" % (t, crit, m)
    for shape, maps in MAPS.items():
        for m in maps:
            for a in (CODES if shape != "2x3" else [0, 1, 4, 16, 2]):
                for b in (CODES if shape != "2x3" else [0, 1, 4, 16, 2]):
                    for c in ([None] if shape != "2x3" else [0, 1, 4, 16, 2]):
                        if shape == "2x2" and q and (CODES.index(a) + CODES.index(b)) % 2:
                            continue
                        if shape == "2x3" and q and (a * 3 + b * 5 + (c or 0)) % 7 > 1:
                            continue
                        yield "flow/%s/%s/%d,%d%s" % (shape, m, a, b, "" if c is None else ",%d" % c)
    for a, b, c in itertools.product((1, 2, 3, 7, 99, 120) if not q else (1, 3, 99), repeat=3):
        if a + b + c < 230:
            for e in (0, 1):
                yield "wide/%d/%d/%d/%d" % (a, b, c, e)
    letters = "fsmiwx-"
    k = 0
    for kind, hows in (("r", "-codnp"), ("v", "-octsp")):
        for how in hows:
            for mp in list("abcde") + (["W"] if how != "p" else []):
                for st in SETS:
                    for w in words(letters, 6, 14 if q else 60, k):
                        yield "cover/%s/%s/%s/%s/%s" % (kind, w, mp, st, how)
                    k += 1
    for w in WRONG:
        yield "wrong/" + w
    for how in ("none", "nearest", "average", "max", "min", "sum"):
        for kind, nans in itertools.product("fi", "zk"):
            for fine in (1, 2, 3):
                for word in ["0", "1", "012", "-", "12-0", "1-", "--1-2", "0120-21-"]:
                    yield "raster/%s/%s/%s/%s/%d" % (how, word, kind, nans, fine)


def words(letters, n, count, k):
    """A different slice of all words of n letters at each call."""
    total = len(letters) ** n
    step = total // count
    for i in range(count):
        v = (i * step + k * 7919 + i * i * 31) % total
        yield "".join(letters[(v // len(letters) ** j) % len(letters)] for j in range(n))


RUN = {"bands": run_bands, "crit": run_crit, "again": run_again, "files": run_files, "flow": run_flow, "wide": run_wide, "cover": run_cover,
       "wrong": run_wrong, "raster": run_raster}


def run(case, x):
    kind, rest = case.split("/", 1)
    RUN[kind](rest, x)
