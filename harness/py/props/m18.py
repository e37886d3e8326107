"""M18: the glaciers drawn on a map reach the units, and the simulation, with the area they cover."""
import datetime
import itertools
import os
import pickle

import props.m14 as m14
from props.m14 import Land, X0, Y0, CRS, column, bands
from props.common import *

import numpy as np
import pandas as pd
import hydrobricks.actions.action_land_cover_change as lcmod
from hydrobricks.actions import ActionLandCoverChange
from hydrobricks.preprocessing import initialize_glacier_cover_from_extent

REAL = lcmod._ActionLandCoverChange


class Recorder(REAL):
    def __init__(self):
        super().__init__()
        self.changes = []

    def add_change(self, date, unit, cover, area):
        self.changes.append((date, int(unit), cover, float(area)))
        super().add_change(date, unit, cover, area)


# a cell is drawn in ninths: none, all, two thirds with the centre, a third without it, the middle, a corner
SHAPE = {"-": [], "f": [(0, 0, 3, 3)], "l": [(0, 0, 2, 3)], "s": [(0, 0, 1, 3)], "m": [(1, 1, 2, 2)], "k": [(2, 0, 3, 1)]}
CENTRE = {"f", "l", "m"}


def ninths(k):
    return {(u, v) for a, b, c, d in SHAPE[k] for u in range(a, c) for v in range(b, d)}


class World:
    """A row of cells in one or several bands, with what surrounds it."""

    def __init__(self, x, z, outline="one", px=(30.0, 30.0), dtype="float32", nodata=-9999.0, covers=("open", "glacier"), types=None, step=50):
        self.x = x
        self.land = Land(x, z, px=px, dtype=dtype, nodata=nodata)
        self.px = px
        self.cells = self.land.cells()
        if outline == "cut":          # the last cell is outside
            self.land.inside[self.cells[-1]] = False
        self.outline(outline)
        self.cat = self.land.open(land_cover_names=list(covers), land_cover_types=list(types or covers))
        self.cat.create_elevation_bands(distance=step)
        self.df = self.cat.hydro_units.hydro_units
        self.ids = [int(v) for v in column(self.df, "id", "-")]
        m = np.array(self.cat.map_unit_ids)
        self.unit = {p: int(m[p]) for p in self.cells}
        self.area = {u: sum(v == u for v in self.unit.values()) * px[0] * px[1] for u in self.ids}

    def box(self, p, q=(0, 0, 3, 3)):
        w, h = self.px
        i, j = p
        xs = [X0 + w * (j + t / 3) for t in range(4)]
        ys = [Y0 - h * (i + t / 3) for t in range(4)]
        return (xs[q[0]], ys[q[3]], xs[q[2]], ys[q[1]])

    def write(self, path, geoms, crs=CRS, fields=None):
        from pyproj import shift
        dx, dy = shift(CRS, crs)
        with open(path, "wb") as f:
            pickle.dump(dict(crs=crs, fields=fields or {}, geoms=[[(b[0] + dx, b[1] + dy, b[2] + dx, b[3] + dy) for b in g] for g in geoms]), f)
        return path

    def outline(self, how):
        ps = [tuple(int(v) for v in p) for p in np.argwhere(self.land.inside)]
        rows = {}
        for p in ps:
            rows.setdefault(p[0], []).append(p)
        one = []
        for i, r in rows.items():       # one box for each row
            a, b = self.box(r[0]), self.box(r[-1])
            one.append((a[0], a[1], b[2], b[3]))
        each = [[self.box(p)] for p in ps]
        geoms = {"one": [one], "cut": [one], "multi": [[b[0] for b in each]], "two": each, "mixed": [[b[0] for b in each[:-1]], each[-1]],
                 "twice": each + [[self.box(ps[0])]]}[how]
        self.write(self.land.outline, geoms)

    def draw(self, name, word, crs=CRS, how=""):
        """A layer of a word.  o: reaches out of the catchment; p: drawn in pieces that overlap; e: one feature for each cell."""
        parts = [[self.box(p, q) for q in SHAPE[k]] for p, k in zip(self.cells, word)]
        geoms = [[b for g in parts for b in g]]
        if "e" in how:
            geoms = [g for g in parts if g]
        if "p" in how:
            geoms = geoms + [g for g in parts if g] + [[self.box(p, (1, 1, 2, 2))] for p, k in zip(self.cells, word) if k in CENTRE]
        if "o" in how:
            geoms = geoms + [[self.box((0, 0)), self.box((self.land.n - 1, self.land.m - 1))], [(X0 - 1e4, Y0, X0 - 9e3, Y0 + 1e3)]]
        return self.write(os.path.join(self.land.d, name), geoms, crs, {"id": list(range(len(geoms)))})

    def areas(self, word, method, within=None):
        """Area of each unit the word covers, exactly or by whole cells; within: only on that other word."""
        out = {u: 0.0 for u in self.ids}
        for n, (p, k) in enumerate(zip(self.cells, word)):
            u = self.unit[p]
            if u == 0:
                continue
            s = ninths(k)
            if within is not None:
                s &= ninths(within[n])
            share = len(s) / 9 if method == "vector" else float((1, 1) in s) if method == "raster" else float(bool(s))
            out[u] += share * self.px[0] * self.px[1]
        return out


def filled(row):
    out, last = [], None
    for v in row:
        if v is None or v != v:
            v = last
        out.append(v)
        last = v
    return out


DATES = {
    "jan": ["2000-01-01", "2002-01-01", "2003-01-01"], "mid": ["2000-08-01", "2002-03-01", "2003-06-15"],
    "in": ["2000-03-01", "2000-05-20", "2000-10-01"], "end": ["1999-12-31", "2000-12-31", "2001-12-31"],
    "leap": ["2000-02-29", "2004-02-29", "2004-12-31"], "far": ["1999-06-01", "2010-01-01", "2011-01-02"],
    "last": ["2000-01-01", "2000-06-01", "2002-12-31"], "one": ["2001-09-15"], "new": ["2001-01-01"], "two": ["2000-08-01", "2000-12-01"],
    "back": ["2002-01-01", "2000-01-01", "2003-01-01"], "wild": ["2003-06-15", "2002-03-01", "2000-08-01"],
}


def day(s):
    return datetime.date.fromisoformat(s)


def expected(times, areas, yearly):
    """{date: area} from what was drawn at some dates."""
    known = sorted((day(t), a) for t, a in zip(times, areas))
    out = dict(known)
    if yearly:
        for y in range(known[0][0].year, known[-1][0].year + 1):
            d = datetime.date(y, 1, 1)
            for (d0, a0), (d1, a1) in zip(known, known[1:]):
                if d0 < d < d1:
                    out[d] = a0 + (a1 - a0) * (d - d0).days / (d1 - d0).days
    return dict(sorted(out.items()))


def make(w, words, debris, times, method, yearly, crs, how, ask):
    """The action and the frames of a history, with the changes the core was told."""
    files = [w.draw("g%d.shp" % k, g, crs, how) for k, g in enumerate(words)]
    kw = {}
    if debris is not None:
        given = [w.draw("d%d.shp" % k, g, crs, how) for k, g in enumerate(debris)]
        kw["debris_glaciers"] = given
    if ask is not None:
        kw["with_debris"] = ask
    if method != "vector":
        kw["method"] = method
    if not yearly:
        kw["interpolate_yearly"] = False
    lcmod._ActionLandCoverChange = Recorder
    try:
        return ActionLandCoverChange.create_action_for_glaciers(w.cat, list(times), files, **kw)
    finally:
        lcmod._ActionLandCoverChange = REAL


def verify(x, w, action, frames, words, debris, times, method, yearly, ask):
    full = [w.areas(g, method) for g in words]
    if ask:
        under = [w.areas(d, method, within=g) for d, g in zip(debris, words)]
        want = [("glacier_ice", [{u: f[u] - d[u] for u in w.ids} for f, d in zip(full, under)]), ("glacier_debris", under)]
    else:
        want = [("glacier", full)]
    x.same(len(frames), len(want) + 1, "frames", "number of tables")
    want.append((None, [{u: w.area[u] - f[u] for u in w.ids} for f in full]))
    tol = 1e-6 * w.px[0] * w.px[1]
    total = 0
    for (name, areas), df in zip(want, frames):
        cols = list(df.columns)
        x.same(cols[0], "hydro_unit", "column", "first column")
        x.same([int(v) for v in df["hydro_unit"].values], w.ids, "units", "units of the table of %s" % name)
        told = {}
        for t, u, c, a in action.action.changes:
            if c == name:
                told.setdefault(u, {})[t] = a
        for n, u in enumerate(w.ids):
            exp = expected(times, [a[u] for a in areas], yearly)
            x.same(cols[1:], [d.isoformat() for d in exp], "dates", "dates of the table of %s" % name)
            got = filled([float(df[c].values[n]) for c in cols[1:]])
            for d, g, e in zip(exp, got, exp.values()):
                x.step()
                x.check(g is not None and abs(g - e) <= tol, "area", "%s of unit %d on %s: got %s, expected %s", name or "the rest", u, d, g, e)
            if name is None:
                continue
            # what the simulation is told
            last = None
            for d, e in exp.items():
                last = told.get(u, {}).get((d - datetime.date(1858, 11, 17)).days, last)
                x.check(last is not None and abs(last - e) <= tol, "told", "%s of unit %d on %s: the action says %s, expected %s", name, u, d, last, e)
            x.check(set(told.get(u, {})) <= {(d - datetime.date(1858, 11, 17)).days for d in exp}, "days", "changes of unit %d on other days: %s", u, told.get(u))
            total += len(told.get(u, {}))
            x.state(tuple(exp.values()))
    x.same(len(action.action.changes), total, "others", "number of changes in units and covers of the map")
    x.same(action.get_change_count(), total, "count", "number of changes")
    x.same(action.get_land_cover_count(), len(want) - 1, "covers", "number of covers that change")
    x.check(action.is_initialized, "initialized", "the action says it is not initialized")
    return full


Z = {"a": [[1000, 1060, 1010]], "b": [[1000, 1010, 1020]], "c": [[1000, 1060, 1130]], "q": [[1000, 1060], [1070, 1010]]}


def run_change(spec, x):
    z, words, method, mode, yearly, outline, crs, dates, how, px = spec.split(".")
    times = DATES[dates]
    words = words.split("+")[:len(times)]
    words += [words[-1]] * (len(times) - len(words))
    debris, ask = None, None
    if mode[0] in "dixs":
        debris = [{"d": "".join("f" if k in "fl" else "s" if k == "s" else "-" for k in g)[::-1], "i": g, "x": "".join("lmf-ks"["flmsk-".index(k)] for k in g),
                   "s": "m" + "f" * (len(g) - 1)}[mode[0]] for g in words]
        debris = [d if any(set(ninths(a)) & ninths(b) for a, b in zip(d, g)) else g for d, g in zip(debris, words)]
        ask = True
        if mode[1:] == "n":       # known but not asked for
            ask = False
        if mode[1:] == "m":       # known for some of the dates and not asked for
            ask, debris = False, debris[:1]
    elif mode == "F":
        ask = False
    w = World(x, Z[z], outline=outline, px=dict(s=(30.0, 30.0), r=(30.0, 15.0), t=(30.1, 30.1))[px])
    if outline == "cut" and any(all(k == "-" for k in g[:-1]) for g in words):
        return
    method = dict(v="vector", r="raster")[method]
    a, frames = make(w, words, debris, times, method, yearly == "y", dict(m=CRS, o="EPSG:21781")[crs], how, ask)
    verify(x, w, a, frames, words, debris, times, method, yearly == "y", bool(ask))
    x.dim("histories")


def run_sea(spec, x):
    """Ice at and below the level of the sea."""
    level, word, what, dtype = spec.split(".")
    k = int(level)
    z = [[0 + k, 60 + k, 10 + k]]
    w = World(x, z, dtype=dtype, nodata=-9999)
    if what in "vr":
        method = dict(v="vector", r="raster")[what]
        words = [word, word[::-1]]
        a, frames = make(w, words, None, DATES["jan"][:2], method, False, CRS, "", None)
        verify(x, w, a, frames, words, None, DATES["jan"][:2], method, False, False)
    else:
        start(x, w, word, what, None)


def start(x, w, word, what, cover, how="", crs=CRS, fine=1):
    name = cover or "glacier"
    if what == "o":
        initialize_glacier_cover_from_extent(w.cat, glacier_outline=w.draw("g.shp", word, crs, how), **(dict(land_cover=cover) if cover else {}))
        want = w.areas(word, "touched")
    else:
        # thickness on cells, or on ninths of a cell
        n, m = w.land.n * fine, w.land.m * fine
        a = np.zeros((n, m), dtype="float64")
        for p, k in zip(w.cells, word):
            if fine == 1:
                a[p] = 12.5 if k in CENTRE else 0
            else:
                for u, v in ninths(k):
                    a[p[0] * 3 + v, p[1] * 3 + u] = 9.0 * (1 + u)
        if "o" in how:
            a[:fine] = 50.0
            a[:, :fine] = 50.0
        nodata = None
        if "n" in how:
            a[a == 0] = -1.0
            nodata = -1.0
        if "N" in how:
            a[a == 0] = np.nan
            nodata = float("nan")
        r = w.land.raster("h.tif", a, nodata=nodata, fine=fine)
        initialize_glacier_cover_from_extent(w.cat, ice_thickness=r, **(dict(land_cover=cover) if cover else {}))
        want = w.areas(word, "raster" if fine == 1 else "touched")
    f = column(w.df if w.df is w.cat.hydro_units.hydro_units else w.cat.hydro_units.hydro_units, "fraction-" + name, "fraction")
    x.close(f, [want[u] / w.area[u] for u in w.ids], 1e-9, "start", "fraction of ice of the units")
    total = np.zeros(len(w.ids))
    for c in w.cat.hydro_units.land_cover_names:
        v = np.array(column(w.cat.hydro_units.hydro_units, "fraction-" + c, "fraction"))
        total += v
        if c not in (name, w.cat.hydro_units.get_generic_cover_name()):
            x.close(v, np.zeros(len(v)), 0, "others", "fraction of " + c)
    x.close(total, np.ones(len(total)), 1e-9, "sum", "sum of the fractions")
    x.step(len(w.ids))
    x.state(tuple(f))
    x.dim("extents")


SETS = {"g": (("open", "glacier"), None, None), "n": (("open", "glacier"), None, "glacier"), "i": (("soil", "ice"), ("open", "glacier"), "ice"),
        "2": (("ice", "open", "debris"), ("glacier", "open", "glacier"), "debris")}


def run_start(spec, x):
    z, word, what, cov, how, outline, fine = spec.split(".")
    covers, types, name = SETS[cov]
    w = World(x, Z[z], outline=outline, covers=covers, types=types)
    inside = [k for p, k in zip(w.cells, word) if w.unit[p]]
    if what == "o" and all(k == "-" for k in inside):
        return
    if cov == "i":
        # the cover of the type glacier is found by itself
        start(x, w, word, what, "ice" if what == "o" else None or "ice", how, fine=int(fine))
    else:
        start(x, w, word, what, name, how, crs="EPSG:32632" if "e" in how else CRS, fine=int(fine))


def run_found(spec, x):
    """Which cover is the glacier."""
    covers, types, found = [(("open", "glacier"), None, "glacier"), (("soil", "ice"), ("open", "glacier"), "ice"), (("ice", "soil"), ("glacier", "open"), "ice"),
                            (("open", "a", "b"), ("open", "glacier", "glacier"), None), (("open", "forest"), ("open", "forest"), None),
                            (("open", "forest", "ice"), ("open", "forest", "glacier"), "ice")][int(spec)]
    for what in "ot":
        w = World(x, Z["a"], covers=covers, types=types)
        p = dict(glacier_outline=w.draw("g.shp", "flf")) if what == "o" else dict(ice_thickness=w.land.raster("h.tif", np.full((w.land.n, w.land.m), 5.0)))
        if found is None:
            before = w.df.copy()
            e = refused(lambda: initialize_glacier_cover_from_extent(w.cat, **p))
            x.check(e is not None, "found", "no cover or several covers are glaciers and one is taken: %s", covers)
        else:
            initialize_glacier_cover_from_extent(w.cat, **p)
            x.close(column(w.cat.hydro_units.hydro_units, "fraction-" + found, "fraction"), [1.0] * len(w.ids), 1e-9, "found", "ice everywhere")
        x.step()
    x.state(spec)


def run_wrong(spec, x):
    k = int(spec)
    w = World(x, Z["a"])
    g = w.draw("g.shp", "flf")
    h = w.land.raster("h.tif", np.full((w.land.n, w.land.m), 5.0))
    bare = w.land.open(land_cover_names=["open", "glacier"], land_cover_types=["open", "glacier"])
    t = ["2000-01-01", "2001-01-01"]
    make_ = ActionLandCoverChange.create_action_for_glaciers
    calls = [
        lambda: initialize_glacier_cover_from_extent(w.cat), lambda: initialize_glacier_cover_from_extent(w.cat, ice_thickness=h, glacier_outline=g),
        lambda: initialize_glacier_cover_from_extent(bare, glacier_outline=g), lambda: initialize_glacier_cover_from_extent(bare, ice_thickness=h),
        lambda: initialize_glacier_cover_from_extent(w.cat, glacier_outline=g, land_cover="open"),
        lambda: initialize_glacier_cover_from_extent(w.cat, glacier_outline=w.land.d + "/no.shp"),
        lambda: initialize_glacier_cover_from_extent(w.cat, ice_thickness=w.land.d + "/no.tif"),
        lambda: make_(bare, t, [g, g]), lambda: make_(w.cat, t, [g]), lambda: make_(w.cat, t, [g, g, g]), lambda: make_(w.cat, t, [g, g], with_debris=True),
        lambda: make_(w.cat, t, [g, g], [g], with_debris=True), lambda: make_(w.cat, t, [g, g], method="pixels"), lambda: make_(w.cat, t, [g, w.land.d + "/no.shp"]),
        lambda: make_(w.cat, ["2000-01-01", "soon"], [g, g]), lambda: make_(w.cat, [], []),
        lambda: initialize_glacier_cover_from_extent(w.cat, glacier_outline=g, land_cover="ice"),
    ]
    if k >= len(calls):
        return
    before = column(w.df, "fraction-glacier", "fraction")
    e = refused(calls[k], FileNotFoundError, OSError, IndexError, AttributeError)
    x.check(e is not None, "accepted", "what cannot be done is done (case %d)", k)
    x.same(column(w.cat.hydro_units.hydro_units, "fraction-glacier", "fraction"), before, "touched", "fractions after the refusal")
    x.step()
    x.state(k)


def run_sim(spec, x):
    """The extents, in a run."""
    z, words, method, debris, yearly, dates, begin, px = spec.split(".")
    words = words.split("+")
    times = {"s": ["2000-03-01", "2000-05-20"], "y": ["1999-12-20", "2000-02-10"], "b": ["1998-06-01", "2000-01-05"], "o": ["2000-01-03"]}[dates]
    words = words[:len(times)]
    method = dict(v="vector", r="raster")[method]
    names = ("open", "glacier") if debris == "-" else ("open", "glacier_ice", "glacier_debris")
    w = World(x, Z[z], covers=names, types=["open"] + ["glacier"] * (len(names) - 1), px=(30.0, 30.0) if px == "s" else (30.1, 30.1))
    deb = None if debris == "-" else [g for g in words] if debris == "i" else ["".join("l" if k == "f" else k for k in g) for g in words]
    a, frames = make(w, words, deb, times, method, yearly == "y", CRS, "", None if deb is None else True)
    full = verify(x, w, a, frames, words, deb, times, method, yearly == "y", deb is not None)
    for n, df in zip(names[1:], frames):
        w.cat.initialize_area_from_land_cover_change(n, df)
    under = None if deb is None else [w.areas(d, method, within=g) for d, g in zip(deb, words)]
    hu = w.cat.hydro_units
    start_ = {"s": "2000-02-25", "y": "1999-12-18", "b": "2000-01-02", "o": "2000-01-01"}[dates]
    word = (m9_snow * 6)[:{"s": 100, "y": 64, "b": 20, "o": 12}[dates]]
    d = x.dir()
    f, end = weather(d, hu, word, start=start_)
    m = models.Socont(land_cover_names=list(names), land_cover_types=["open"] + ["glacier"] * (len(names) - 1), record_all=True)
    m.setup(hu, d, start_, end)
    m.add_action(a)
    m.run(fill(m.generate_parameters()), f)
    got_ids = [int(v) for v in m.get_recorded_hydro_unit_ids()]
    x.same(sorted(got_ids), sorted(w.ids), "ids", "units of the run")
    first = day(start_)
    for c in names:
        fr = np.asarray(m.get_recorded_hydro_unit_fractions(c))
        x.check(fr.shape in ((len(word), len(w.ids)), (len(w.ids), len(word))), "shape", "fractions of shape %s", fr.shape)
        if fr.shape != (len(word), len(w.ids)) or len(word) == len(w.ids):
            fr = fr.T
        for n, u in enumerate(got_ids):
            areas = {"glacier": [q[u] for q in full], "open": [w.area[u] - q[u] for q in full]}
            if under:
                areas["glacier_debris"] = [q[u] for q in under]
                areas["glacier_ice"] = [q[u] - v[u] for q, v in zip(full, under)]
            exp = list(expected(times, areas[c], yearly == "y").items())
            for k in range(len(word)):
                t = first + datetime.timedelta(days=k)
                v = exp[0][1]
                for e, q in exp:
                    # the first step keeps what the units declare
                    if e <= t and k > 0:
                        v = q
                # a unit that has no ice at all has no such cover
                g = 0.0 if fr[k][n] != fr[k][n] and v == 0 else fr[k][n]
                x.check(abs(g - v / w.area[u]) < 1e-6, "run", "%s of unit %d on %s: fraction %s, expected %s", c, u, t, fr[k][n], v / w.area[u])
            x.step(len(word))
    x.state(spec)
    x.dim("runs")


m9_snow = [1, 1, 2, 0, 1, 5, 3, 1, 0, 4, 1, 2, 0, 0, 4, 4, 1, 0, 3, 1, 4, 0, 1, 2]
LETTERS = "-flsmk"


def cases(tier):
    full = tier == "thorough"
    every = ["".join(p) for p in itertools.product(LETTERS, repeat=3) if set(p) != {"-"}]
    seen = [g for g in every if set(g) & CENTRE]
    # what is drawn
    for g in every:
        for b in ("fff", "-l-", "kms") if not full else ("fff", "-l-", "kms", "f--", "mfs", g[::-1]):
            yield "change/a.%s+%s.v.-.n.one.m.jan..s" % (g, b)
    for g in seen:
        for b in ("fff", "-l-", "kms") if not full else ("fff", "-l-", "kms", "f--", "mfs"):
            yield "change/c.%s+%s.r.-.n.one.m.jan..s" % (g, b)
    for a, b in itertools.product("fl", "flsmk") if not full else itertools.product("flsmk", repeat=2):
        for g in itertools.product(LETTERS, repeat=2):
            yield "change/b.%s%s%s+fff.v.x.n.one.m.jan.." % (a, b, g[0]) + ("s" if g[1] in "-fl" else "r")
    # how it is told
    stories = ["fff+lfm+ml-", "fl-+mf-+mm-"] if not full else ["fff+lfm+ml-", "fl-+mf-+mm-", "lmf+lmf+fff", "mfl+fll+fll"]
    for st, method, mode, y, out, crs, dates in itertools.product(stories, "vr", ("-", "F", "d", "i", "s", "dn", "dm"), "ny",
                                                                  ("one", "multi", "two", "mixed", "twice", "cut"), "mo", DATES):
        if not full and (len(mode) > 1 or mode == "F") and (crs == "o" or out not in ("one", "mixed")):
            continue
        if not full and (crs == "o") != (dates in ("mid", "in", "one")) and out != "one":
            continue
        for how in ("", "ope") if full or out in ("one", "two") and dates in ("jan", "mid") else (("ope",) if crs == "o" else ("",)):
            yield "change/a.%s.%s.%s.%s.%s.%s.%s.%s.s" % (st, method, mode, y, out, crs, dates, how)
    for z, px, how, method, mode in itertools.product("abcq", "srt", ("", "o", "p", "e", "ope"), "vr", ("-", "d")):
        n = 4 if z == "q" else 3
        yield "change/%s.%s.%s.%s.n.one.m.jan.%s.%s" % (z, "+".join(("flms"[k:] + "flms")[:n] for k in range(3)), method, mode, how, px)
    # around the level of the sea
    for k, g, what, t in itertools.product((0, -10, -60, -70, 5), ("fff", "fl-", "--f", "lmf", "f-f"), "vrot", ("float32", "int16")):
        if what in "vr" and not (set(g) & CENTRE and set(g[::-1]) & CENTRE):
            continue
        yield "sea/%d.%s.%s.%s" % (k, g, what, t)
    # the first extent
    for g in every + ["---"]:
        yield "start/a.%s.o.g..one.1" % g
        for fine in "13":
            yield "start/a.%s.t.g..one.%s" % (g, fine)
    for g, what, cov, how, out, fine in itertools.product(("flm", "-f-", "mkl", "s-f", "lll"), "ot", "gni2", ("", "o", "p", "e", "n", "N", "on"), ("one", "two", "mixed", "multi", "cut"), "13"):
        if (what == "o") and (fine == "3" or set(how) & set("nN")) or what == "t" and set(how) & set("pe"):
            continue
        yield "start/%s.%s.%s.%s.%s.%s.%s" % ("ac"[how == "o"], g, what, cov, how, out, fine)
    for k in range(6):
        yield "found/%d" % k
    for k in range(17):
        yield "wrong/%d" % k
    for z, st, method, deb, y, dates, px in itertools.product("ac", ("fff+l-m", "lmf+fll", "f-l+f-l", "flf+-fm") if not full else ("fff+l-m", "lmf+fll", "f-l+f-l", "flf+-fm", "mmm+fff", "fmf+ffl"),
                                                              "vr", "-iw", "ny", "sybo", "st"):
        if full or px == "s" or deb == "-":
            yield "sim/%s.%s.%s.%s.%s.%s.0.%s" % (z, st, method, deb, y, dates, px)


def run(case, x):
    kind, _, spec = case.partition("/")
    return globals()["run_" + kind](spec, x)
