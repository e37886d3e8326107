"""M17: a project that cuts its units out of a terrain, or takes its weather from grids, stands for the steps it describes; anything wrong is refused."""
import os
import shutil
import itertools

import numpy as np
import pandas as pd

import sys

from props import m16, m14                      # (the stand-ins of the GIS libraries, before the package)
from props.m14 import Land, bands, X0, Y0
from props.m11 import BAD, N_DAYS, START, WORD, MODELS, STRUCT, attempt, set_at, dotted, day, quietly, fill_gaps, cli, yaml, copy, CustomModel
from props.common import *

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "shims_grid"))      # (found first)

CASE_LIMIT = 120
PX = 25.0
# the terrain: heights that rise by a little more than a band from column to column, and with each row
INNER = [[1004.0 + 31 * j + 17 * i for j in range(4)] for i in range(3)]
CUTS = {"e50": dict(method="equal_intervals", distance=50), "e30": dict(distance=30), "e40w": dict(distance=40, min_elevation=1000, max_elevation=1120),
        "e25l": dict(distance=25, min_elevation=900), "q2": dict(method="quantiles", number=2), "q4": dict(method="quantiles", number=4), "e-": dict(), "q-": dict(method="quantiles"),
        "e60h": dict(method="equal_intervals", distance=60, number=3, max_elevation=1100)}
IDS = (4, 2, 9)
V = hb.Forcing.Variable


def weather_of(g):
    """Fields of the three variables, different in every cell; temperature and precipitation change with the place."""
    i, j = np.meshgrid(np.arange(g.n), np.arange(g.m), indexing="ij")
    P = np.array([DAYS[w][0] * (1 + 0.1 * i + 0.05 * j) for w in WORD])
    T = np.array([DAYS[w][1] + 0.5 * i - 0.25 * j + 0 * k for k, w in enumerate(WORD)])
    E = np.array([DAYS[w][4] + 0.1 * i + 0.2 * j + k % 3 * 0.1 for k, w in enumerate(WORD)])
    return {"precipitation": P, "temperature": T, "pet": E}


DIMS = {"p": ("time", "y", "x"), "l": ("date", "N", "E")}


class World:
    """The files a project can name.  src: how the grids are stored (p: plain, crs told in the project; l: local names and the crs in the file; f: a folder of files)."""

    def __init__(self, x, src="p", hole=False):
        self.d = x.dir()
        self.land = land = Land(x, INNER, px=(PX, PX), out=[(0, 0)] if hole else [])
        for f in os.listdir(land.d):
            shutil.copy(os.path.join(land.d, f), os.path.join(self.d, f))
        self.src = src
        # cells of 2 x 2 pixels; the first one sticks out of the terrain
        self.grid = g = m16.Grid(4, 4, fl="du", dims=DIMS["l" if src == "l" else "p"], x0=X0 - PX, y0=Y0 + PX, cell=2 * PX)
        self.values = weather_of(g)
        days = [np.datetime64(pd.Timestamp(day(k).isoformat()).to_pydatetime(), "ns") for k in range(N_DAYS)]
        for v, a in self.values.items():
            n = {"precipitation": "RhiresD", "temperature": "TabsD", "pet": "pet"}[v]
            if src == "f":
                os.makedirs(self.d + "/grid_" + v)
                for s, q in (("b", slice(0, 9)), ("a", slice(9, N_DAYS))):
                    g.save(self.d + "/grid_%s/%s_%s.nc" % (v, n, s), days[q], a[q], var=n)
                g.save(self.d + "/grid_%s/other.nc" % v, days, a + 1, var=n)
            else:
                g.save(self.d + "/%s.nc" % v, days, a, var=n, crs=2056 if src == "l" else None)
        # the units of the table: by columns of the terrain
        self.word = {}
        ids = np.zeros((land.n, land.m), dtype=np.uint16)
        for i, j in land.cells():
            ids[i, j] = IDS[(2 * j + i) % 3]
            self.word.setdefault(int(ids[i, j]), []).append((i, j))
        with open(self.d + "/ids.tif", "wb") as f:
            m14.pickle.dump({"data": ids, "transform": land.t, "crs": m14.CRS, "nodata": 0}, f)
        self.rows = [(u, PX * PX * len(self.word[u]), float(np.mean([land.z[p] for p in self.word[u]])), 10.0 + u) for u in IDS]
        with open(self.d + "/units.csv", "w") as f:
            f.write("id,elevation,area,slope,lat,open_a,ice_a\n-,m,m2,degrees,deg,m2,m2\n")
            for u, a, z, s in self.rows:
                f.write("%d,%r,%r,%r,%r,%r,%r\n" % (u, z, a, s, 11.0 + u / 10, a * 0.75, a * 0.25))
        import csv
        with open(self.d + "/meteo.csv", "w", newline="") as f:
            w = csv.writer(f)
            w.writerow(["date", "P", "T", "tmin", "tmax", "pet", "rad"])
            for k, c in enumerate(WORD):
                w.writerow([day(k).isoformat()] + list(DAYS[c]))

    def places(self, cells):
        return [(X0 + PX * (j + .5), Y0 - PX * (i + .5)) for i, j in cells]

    def source(self, v, grad="", crs=True):
        n = {"precipitation": "RhiresD", "temperature": "TabsD", "pet": "pet"}[v]
        s = {"path": v + ".nc", "var_name": n}
        if self.src == "f":
            s.update(path="grid_" + v, file_pattern=n + "_*.nc")
        if self.src == "l":
            s.update(dim_time="date", dim_x="E", dim_y="N")
        else:
            s["crs"] = 2056
        if grad:
            s["elevation_gradient"] = True
            if grad in "am":
                s["gradient_type"] = {"a": "additive", "m": "multiplicative"}[grad]
        elif v == "pet":
            s["elevation_gradient"] = False
        return s


def config(w, cut, p, t, pet, model, per="s"):
    """cut: how the units are had; p, t: s (station), S (station, with gradient), g (grids), d/a/m (grids with gradient; default/additive/multiplicative); pet: s, g, lat, land"""
    cls, name, opt, par = MODELS[model]
    c = {"model": {"options": copy.deepcopy(opt)} if opt else {}}
    if cls:
        c["model"]["name"] = name
    else:
        c["model"]["structure"] = copy.deepcopy(STRUCT)
    hu = {}
    kind, _, rest = cut.partition(":")
    if kind == "cut":
        hu = {"outline": "outline.shp", "dem": "dem.tif", "discretization": dict(CUTS[rest])}
    else:
        hu = {"file": "units.csv"}
        if "l" in rest:
            hu.update(outline="outline.shp", dem="dem.tif")
        if "r" in rest:
            hu["unit_ids_raster"] = "ids.tif"
        cols = {}
        if model == "kin" or "s" in rest:
            cols["slope"] = "slope"
        if "k" in rest:
            cols["latitude"] = "lat"
        if cols:
            hu["columns"] = cols
        if model == "gla":
            hu["land_cover_areas"] = {"open": "open_a", "ice": "ice_a"}
    c["hydro_units"] = hu
    f, cols, grids = {}, {}, {}
    for v, h, col in (("precipitation", p, "P"), ("temperature", t, "T"), ("pet", pet, "pet")):
        if h in ("s", "S"):
            cols[v] = col
        elif h not in ("lat", "land"):
            grids[v] = w.source(v, {"g": "", "d": "d", "a": "a", "m": "m"}[h])
    if cols:
        f.update(file="meteo.csv", columns=cols, ref_elevation=1030)
        if p == "S":
            f["precipitation"] = {"gradient": 0.04, "correction_factor": 1.1}
        if t == "S":
            f["temperature"] = {"gradient": -0.5}
    if grids:
        f["gridded"] = grids
    if pet == "lat":
        f["pet"] = {"latitude": 46.8}
    elif pet == "land" and per == "l":
        f["pet"] = {"method": "Hamon"}
    c["forcing"] = f
    c["periods"] = [day(2).isoformat(), day(21).isoformat()] if per == "l" else {"simulation": [day(2).isoformat(), day(21).isoformat()]}
    c["output"] = "out"
    if par:
        c["parameters"] = dict(par)
    return c


def needs(c):
    """What the sections need that is not there: such a project has to be refused."""
    hu, f = c["hydro_units"], c["forcing"]
    r = []
    if f.get("gridded") and "unit_ids_raster" not in hu and "discretization" not in hu:
        r.append("unit_ids_raster")
    if any(s.get("elevation_gradient") for s in f.get("gridded", {}).values()) and "outline" not in hu:
        r.append("elevation_gradient")
    if "pet" not in f.get("columns", {}) and "pet" not in f.get("gridded", {}) and "latitude" not in f.get("pet", {}) and "outline" not in hu:
        r.append("latitude")
    return r


def explicit(w, c, cut, model, out):
    """The steps of the documentation, one by one."""
    d = w.d
    at = lambda f: os.path.join(d, f)
    hu_c, f = c["hydro_units"], c["forcing"]
    covers = (["open", "glacier"], ["open", "ice"]) if model == "gla" else ()
    land = None
    if "outline" in hu_c:
        land = hb.Catchment(at("outline.shp"), *covers)
        land.extract_dem(at("dem.tif"))
    ids = at("ids.tif")
    if cut.startswith("cut:"):
        land.create_elevation_bands(**CUTS[cut[4:]])
        hu = land.hydro_units
        land.save_unit_ids_raster(out)
        ids = os.path.join(out, "unit_ids.tif")
    else:
        hu = land.hydro_units if land else hb.HydroUnits(*covers)
        other = hu_c.get("columns") or None
        if model == "gla":
            hu.load_from_csv(at("units.csv"), column_elevation="elevation", columns_areas={"open": "open_a", "ice": "ice_a"}, other_columns=other)
        else:
            hu.load_from_csv(at("units.csv"), column_elevation="elevation", column_area="area", other_columns=other)
    fo = hb.Forcing(land or hu)
    if "columns" in f:
        fo.load_station_data_from_csv(at("meteo.csv"), column_time="date", time_format="%Y-%m-%d", content=dict(f["columns"]))
        if "temperature" in f["columns"]:
            fo.spatialize_from_station_data(variable="temperature", ref_elevation=1030, gradient=f.get("temperature", {}).get("gradient", -0.6))
        if "precipitation" in f["columns"]:
            p = f.get("precipitation", {})
            if p:
                fo.correct_station_data(variable="precipitation", correction_factor=p["correction_factor"])
                fo.spatialize_from_station_data(variable="precipitation", ref_elevation=1030, gradient=p["gradient"])
            else:
                fo.spatialize_from_station_data(variable="precipitation", method="constant")
        if "pet" in f["columns"]:
            fo.spatialize_from_station_data(variable="pet", method="constant")
    for v, s in f.get("gridded", {}).items():
        kw = {k: s[k] for k in ("file_pattern", "var_name", "dim_time", "dim_x", "dim_y", "gradient_type") if k in s}
        if "crs" in s:
            kw["data_crs"] = s["crs"]
        fo.spatialize_from_gridded_data(v, path=at(s["path"]), raster_hydro_units=ids, apply_data_gradient=s.get("elevation_gradient", False), **kw)
    if "pet" not in f.get("columns", {}) and "pet" not in f.get("gridded", {}):
        lat = f.get("pet", {}).get("latitude")
        if lat is None and not cut.startswith("cut:") and "latitude" not in hu_c.get("columns", {}):
            lat = w.land.latlon(w.land.cells())[0]       # of the catchment
        fo.compute_pet(method=f.get("pet", {}).get("method", "Oudin"), use=["t", "lat"], lat=lat)
    cls = MODELS[model][0]
    m = cls(**MODELS[model][2]) if cls else CustomModel(copy.deepcopy(STRUCT))
    ps = m.generate_parameters()
    if MODELS[model][3]:
        ps.set_values(MODELS[model][3])
    m.setup(spatial_structure=hu, output_path=out, start_date=day(2).isoformat(), end_date=day(21).isoformat(), spinup=0)
    return hu, fo, m, ps


def load(x, c, d, how, setup=True):
    c = copy.deepcopy(c)
    if how == "abs":
        for k in ("file", "outline", "dem", "unit_ids_raster"):
            if k in c["hydro_units"]:
                c["hydro_units"][k] = os.path.join(d, c["hydro_units"][k])
        if "file" in c["forcing"]:
            c["forcing"]["file"] = os.path.join(d, c["forcing"]["file"])
        for s in c["forcing"].get("gridded", {}).values():
            s["path"] = os.path.join(d, s["path"])
        c["output"] = os.path.join(d, c["output"])
        return hb.load_project(c, setup=setup)
    if how == "dict":
        before = copy.deepcopy(c)
        p = hb.load_project(c, base_dir=d, setup=setup)
        x.same(c, before, "modified", "the mapping of the caller")
        return p
    path = os.path.join(d if how == "yaml" else x.dir(), "project.yaml")
    with open(path, "w") as f:
        yaml.safe_dump(c, f, sort_keys=False)
    return hb.load_project(path, setup=setup, **({} if how == "yaml" else {"base_dir": d}))


def table(hu):
    df = hu.hydro_units
    return {tuple(map(str, c)): [v if isinstance(v, str) else float(v) for v in df[c].values] for c in df.columns.tolist()}


def run_run(spec, x):
    cut, p, t, pet, model, src, how, when, per = spec.split(".")
    hole = src.endswith("h")
    w = World(x, src[0], hole)
    c = config(w, cut, p, t, pet, model, per)
    lack = needs(c)
    if lack:
        m = attempt(x, c, w.d, spec)
        x.check(m is not None and all(k in m for k in lack), "accepted", "%s lacks %s: %s", spec, lack, m)
        x.check(not os.path.exists(w.d + "/out/unit_ids.tif"), "accepted", "%s refused, but units are written", spec)
        return
    project = load(x, c, w.d, how, setup=when != "later")
    if when == "later":
        project.setup()
    out = x.dir()
    hu, fo, model_, ps = explicit(w, c, cut, model, out)
    fill_gaps(project.parameters)
    fill_gaps(ps)
    a, b = table(project.hydro_units), table(hu)
    x.same(list(a), list(b), "columns", "columns of the units")
    for k in b:
        x.same(a[k], b[k], "units", "%s of the units" % (k,))
    x.same((project.hydro_units.land_cover_names, project.hydro_units.land_cover_types), (hu.land_cover_names, hu.land_cover_types), "covers", "land covers")
    x.check((project.catchment is not None) == ("outline" in c["hydro_units"]), "catchment", "catchment of the project: %r", project.catchment)
    # the units are those of the terrain
    if cut.startswith("cut:"):
        q = dict(method="equal_intervals", distance=50, number=100, min_elevation=None, max_elevation=None)
        q.update(CUTS[cut[4:]])
        cls, _ = bands({pt: w.land.z[pt] for pt in w.land.cells()}, w.land.cells(), q["method"], q["number"], q["distance"], q["min_elevation"], q["max_elevation"])
        groups, _ = m14.verify_units(x, project.catchment, w.land, cls, "cut")
        word = {u: [pt for pt in cls if cls[pt] == k] for u, k in groups.items()}
    else:
        word = w.word
    if c["forcing"].get("gridded") and cut.startswith("cut:"):
        with open(str(project.output_dir) + "/unit_ids.tif", "rb") as f, open(out + "/unit_ids.tif", "rb") as g:
            x.check(np.array_equal(m14.pickle.load(f)["data"], m14.pickle.load(g)["data"]), "raster", "map of the units written")
    got = project.run()
    model_.run(parameters=ps, forcing=fo)
    want = np.asarray(model_.get_outlet_discharge())
    x.same([v.strftime("%Y-%m-%d") for v in got.index], [day(k).isoformat() for k in range(2, 22)], "dates", "dates of the discharge")
    x.check(np.array_equal(got.to_numpy(), want), "discharge", "discharge %s..., the same steps give %s...", got.to_numpy()[:4].tolist(), want[:4].tolist())
    x.check(float(np.sum(want)) > 0, "dry", "no discharge")
    s1, s2 = ({str(k): np.asarray(f.data2D.data[i]) for i, k in enumerate(f.data2D.data_name)} for f in (fo, project.forcing))
    x.same(sorted(s2), sorted(s1), "forcing", "series of the units")
    for k in s1:
        x.check(np.array_equal(s1[k], s2[k]), "forcing", "%s of the units: %s, expected %s", k, s2[k][:3].tolist(), s1[k][:3].tolist())
    # what the grids say under each unit
    ids = [int(v) for v in a[("id", "-")]]
    for v, h in (("precipitation", p), ("temperature", t), ("pet", pet)):
        if h == "g":
            got2 = s2[str(project.forcing.get_variable_enum(v))]
            for k, u in enumerate(ids):
                x.close(got2[:, k], m16.mean(w.grid, w.values[v], w.places(word[u])), 1e-9, "grid", "%s of unit %d" % (v, u))
    x.step(20)
    x.state(round(float(np.sum(want)), 8))


NAMES = {"short": ("P", "T", "PET"), "small": ("p", "t", "pet"), "word": ("precip", "temp", "PET")}


def run_alias(spec, x):
    """A variable is the same under any of its names, and there once."""
    cut, p, t, pet, model, n = spec.split(".")
    w = World(x)
    c = config(w, cut, p, t, pet, model)
    ref = load(x, c, w.d, "dict")
    ren = dict(zip(("precipitation", "temperature", "pet"), NAMES[n]))
    for sec in ("columns", "gridded"):
        if sec in c["forcing"]:
            c["forcing"][sec] = {ren[k]: v for k, v in c["forcing"][sec].items()}
    c["output"] = "out2"
    got = load(x, c, w.d, "yaml")
    q = []
    for r in (ref, got):
        fill_gaps(r.parameters)
        q.append((r.run().to_numpy(), {str(k): np.asarray(r.forcing.data2D.data[i]) for i, k in enumerate(r.forcing.data2D.data_name)}))
    x.same(sorted(q[1][1]), sorted(q[0][1]), "alias", "series of the units under other names")
    for k in q[0][1]:
        x.check(np.array_equal(q[0][1][k], q[1][1][k]), "alias", "%s under another name: %s, expected %s", k, q[1][1][k][:3].tolist(), q[0][1][k][:3].tolist())
    x.check(np.array_equal(q[0][0], q[1][0]), "alias", "discharge under other names")
    # told a second time under another name
    for sec in ("columns", "gridded"):
        for k, v in list(c["forcing"].get(sec, {}).items()):
            twice = copy.deepcopy(c)
            other = {"P": "precip", "p": "precipitation", "precip": "P", "T": "temp", "t": "temperature", "temp": "T", "PET": "pet", "pet": "PET"}[k]
            twice["forcing"][sec][other] = copy.deepcopy(v)
            m = attempt(x, twice, w.d, "%s and %s" % (k, other))
            x.check(m is not None and "twice" in m, "twice", "%s and %s: %s", k, other, m)
            for sec2 in ("columns", "gridded"):
                if sec2 != sec and sec2 in c["forcing"]:
                    twice = copy.deepcopy(c)
                    canon = [a for a, b in ren.items() if b == k][0]
                    twice["forcing"][sec2][other] = w.source(canon) if sec2 == "gridded" else {"precipitation": "P", "temperature": "T", "pet": "pet"}[canon]
                    m = attempt(x, twice, w.d, "%s and %s" % (k, other))
                    x.check(m is not None and "one source per variable" in m, "twice", "%s and, from grids, %s: %s", k, other, m)
    x.step(20)


# --------------------------------------------------------------------------------------------------------------- faults
MAP, NUM, STR, INT, BOOL, WORDS, FILE = "mapping", "number", "string", "integer", "true or false", "one of", "file"
H, G = ("hydro_units",), ("forcing", "gridded")
RULES = {"cut": [(H + ("discretization",), MAP, True), (H + ("discretization", "method"), WORDS, False), (H + ("discretization", "distance"), NUM, False),
                 (H + ("discretization", "number"), NUM, False), (H + ("discretization", "min_elevation"), NUM, False), (H + ("discretization", "max_elevation"), NUM, False),
                 (H + ("outline",), FILE, True), (H + ("dem",), FILE, True)],
         "csv": [(H + ("unit_ids_raster",), FILE, True), (H + ("outline",), FILE, True), (H + ("dem",), FILE, True)],
         "grid": [(G, MAP, None)] + [(G + (v, k), *s) for v in ("precipitation", "temperature") for k, s in
                                     (("path", (FILE, True)), ("file_pattern", (STR, True)), ("var_name", (STR, True)), ("crs", (INT, False)), ("dim_time", (STR, False)),
                                      ("dim_x", (STR, False)), ("dim_y", (STR, False)), ("elevation_gradient", (BOOL, None)), ("gradient_type", (WORDS, False)))]}
WORDS_OF = {"method": ("equal_intervals", "quantiles"), "gradient_type": ("additive", "multiplicative")}


def base(w, b):
    if b == "cut":
        c = config(w, "cut:e40w", "s", "s", "lat", "lin")
        c["hydro_units"]["discretization"].update(method="equal_intervals", number=12)
        return c
    if b == "csv":
        return config(w, "csv:lr", "g", "d", "land", "lin")
    c = config(w, "csv:lr", "m", "a", "s", "lin")
    for s in c["forcing"]["gridded"].values():
        s.update(dim_time="time", dim_x="x", dim_y="y")
    return c


def run_fault(spec, x):
    b, k = spec.split(".")
    w = World(x, "f")
    c = base(w, b)
    path, kind, need = RULES[b][int(k)]
    name = dotted(path)
    x.check(attempt(x, c, w.d, "unchanged") is None, "refused", "the configuration itself is refused: %s", attempt(x, c, w.d, "unchanged"))
    m = attempt(x, set_at(c, path, None, drop=True), w.d, "without " + name)
    if need is not None:
        x.check((m is not None) == need, "absent", "without %s: %s", name, "accepted" if m is None else "refused: " + m)
    x.step()
    for v in BAD + [0, -1, 1.5, 2.7, "*.zip", "additive ", "QUANTILES"]:
        what = "%s: %r" % (name, v)
        number = isinstance(v, (int, float)) and not isinstance(v, bool)
        want = None
        if v is None:
            want = need if kind != BOOL else None
        elif kind == FILE:
            want = True
        elif kind == MAP:
            want = True if not isinstance(v, dict) or v else None
        elif kind == NUM:
            want = None if number else True
        elif kind == STR:
            want = None if isinstance(v, str) else True
            if path[-1] == "file_pattern" and want is None:
                want = True      # nothing is called so
        elif kind == INT:
            want = None if isinstance(v, int) and not isinstance(v, bool) else True
        elif kind == BOOL:
            want = None if isinstance(v, bool) else True
        elif kind == WORDS:
            want = True if v not in WORDS_OF[path[-1]] and v != "" else None
        if number and path[-1] in ("distance", "number") and not v > 0:
            want = True
        if number and path[-1] == "number" and v > 0 and v != int(v):
            want = True
        if number and path[-1] in ("min_elevation", "max_elevation") and v != v:
            want = True
        if number and path[-1] == "min_elevation" and v > 1120:       # above the upper one
            want = True
        if number and path[-1] == "max_elevation" and v < 1000:
            want = True
        m = attempt(x, set_at(c, path, v), w.d, what)
        x.step()
        x.state(b, k, repr(v), m is None)
        if want is not None:
            x.check((m is not None) == want, "accepted" if want else "refused", "%s is %s", what, "accepted" if m is None else "refused: " + m)
        if m is not None and want:
            x.check(path[-1] in m, "location", "%s: the message does not say where: %s", what, m)
    w_ = path[-1][:-1] + ("z" if path[-1][-2:] != "_y" else "w")
    q = c
    for p in path[:-1]:
        q = q[p]
    m = attempt(x, set_at(set_at(c, path, None, drop=True), path[:-1] + (w_,), copy.deepcopy(q[path[-1]])), w.d, "misspelt " + name)
    x.check(m is not None and w_ in m and "did you mean" in m, "misspelt", "%s written %s: %s", name, w_, m)
    m = attempt(x, set_at(c, path[:-1] + ("qqq",), 1 if path[:2] != G or len(path) != 2 else 1), w.d, "unknown entry beside " + name)
    x.check(m is not None and "qqq" in m, "unknown", "an unknown entry beside %s: %s", name, m)


def special():
    """(name, base, change, words of the refusal; None: accepted)"""
    def f(b, say, change):
        L.append((b, say, change))
    L = []
    f("cut", "mutually exclusive", lambda c: c["hydro_units"].update(file="units.csv"))
    f("cut", "hydro_units.columns", lambda c: c["hydro_units"].update(columns={"slope": "slope"}))
    f("cut", "hydro_units.land_cover_areas", lambda c: c["hydro_units"].update(land_cover_areas={"open": "open_a"}))
    f("cut", "unit_ids_raster", lambda c: c["hydro_units"].update(unit_ids_raster="ids.tif"))
    f("cut", "discretization", lambda c: c["hydro_units"].pop("discretization"))
    f("csv", "hydro_units.file", lambda c: c["hydro_units"].update(file="none.csv"))
    f("csv", "one source per variable", lambda c: c["forcing"].update(file="meteo.csv", columns={"precipitation": "P"}))
    f("csv", "one source per variable", lambda c: c["forcing"].update(file="meteo.csv", columns={"P": "P"}))
    f("csv", "defined twice", lambda c: c["forcing"]["gridded"].update(p=copy.deepcopy(c["forcing"]["gridded"]["precipitation"])))
    f("csv", "rain", lambda c: c["forcing"]["gridded"].update(rain=c["forcing"]["gridded"].pop("precipitation")))
    f("csv", "breeze", lambda c: c["forcing"]["gridded"].update(breeze=copy.deepcopy(c["forcing"]["gridded"]["precipitation"])))
    f("csv", "precipitation", lambda c: c["forcing"]["gridded"].pop("precipitation"))
    f("csv", "temperature", lambda c: c["forcing"]["gridded"].pop("temperature"))
    f("csv", "elevation_gradient", lambda c: [c["hydro_units"].pop(k) for k in ("outline", "dem")])
    f("csv", "latitude", lambda c: ([c["hydro_units"].pop(k) for k in ("outline", "dem")], c["forcing"]["gridded"]["temperature"].pop("elevation_gradient")))
    f("csv", "provided together", lambda c: c["hydro_units"].pop("dem"))
    f("csv", "provided together", lambda c: c["hydro_units"].pop("outline"))
    f("csv", "expected a mapping", lambda c: c["forcing"]["gridded"].update(precipitation="grid_precipitation"))
    f("csv", "forcing.gridded.precipitation.file_pattern", lambda c: c["forcing"]["gridded"]["precipitation"].pop("file_pattern"))
    f("csv", "forcing.gridded.precipitation.file_pattern", lambda c: c["forcing"]["gridded"]["precipitation"].update(file_pattern="Rhires_*.nc"))
    f("csv", "PET", lambda c: c["forcing"].update(pet={"method": "Nobody"}))
    f("csv", None, lambda c: c["forcing"].update(pet={"method": "Hamon", "latitude": 45}))
    f("csv", None, lambda c: c["forcing"]["gridded"]["precipitation"].update(gradient_type="additive"))
    f("csv", None, lambda c: c["forcing"]["gridded"].update(P=c["forcing"]["gridded"].pop("precipitation")))
    f("cut", None, lambda c: c["forcing"]["columns"].update(P=c["forcing"]["columns"].pop("precipitation")))
    f("cut", "defined twice", lambda c: c["forcing"]["columns"].update(P="P"))
    f("cut", None, lambda c: c["hydro_units"]["discretization"].clear() or c["hydro_units"]["discretization"].update(method="quantiles", number=3.0))
    f("cut", "model", lambda c: c["model"].update(name="nobody"))
    f("csv", "both", lambda c: None) if False else None
    return L


def run_special(spec, x):
    b, say, change = special()[int(spec)]
    w = World(x, "f")
    c = base(w, b)
    change(c)
    m = attempt(x, c, w.d, "special %s" % spec)
    if say is None:
        x.check(m is None, "refused", "%s: refused: %s", c, m)
    else:
        x.check(m is not None and say in m, "accepted", "%s of %s: %s", say, c, m)
    # several at once, with one more
    if say is not None:
        c["outptu"] = 3
        c["hydro_units"]["zzz"] = 1
        m = attempt(x, c, w.d, "special %s and more" % spec)
        x.check(m is not None and (say in m or say in ("model", "PET")) and "outptu" in m and "zzz" in m, "together", "%s: %s", say, m)


# ------------------------------------------------------------------------------------------------------- the command line
def run_wizard(spec, x):
    """Every answer of the wizard ends up in the file, which is a project that runs."""
    m, units, source, src, pet, where, answers = spec.split(".")
    w = World(x, src)
    root = x.dir()
    data = os.path.join(root, "the data")
    shutil.copytree(w.d, data)
    w.d = data
    old = os.getcwd()
    os.chdir(root)
    try:
        os.makedirs("sub")
        rel = (lambda f: os.path.join(data, f)) if where == "abs" else lambda f: "the data/" + f
        target = {"here": "project.yaml", "there": "sub/project.yaml", "abs": os.path.join(root, "sub", "p.yaml")}[where]
        told = answers == "told"
        a = [m]
        cut = {}
        if units == "csv" or units == "csvl":
            a += ["csv", rel("units.csv"), "elevation", "area"]
        else:
            a += ["dem", "nofile.shp", rel("outline.shp"), rel("dem.tif")]
            if units == "q":
                a += ["quantile", "quantiles", "many", "3"]
                cut = {"method": "quantiles", "number": 3}
            elif units == "e":
                a += ["", "wide", "37.5"]
                cut = {"method": "equal_intervals", "distance": 37.5}
            else:
                a += ["equal_intervals", ""]
                cut = {"method": "equal_intervals", "distance": 100}
        grads = False
        if source == "station":
            a += ["station", rel("meteo.csv"), "", "", "P", "T"]
            a += ["nocol", "pet"] if pet == "g" else []
            if pet == "lat":      # without a column of that name proposed there would be no way to say none
                return
            a += ["1030"]
        else:
            a += ["gridded"]
            if units.startswith("csv"):
                a += [rel("ids.tif")] + ([rel("outline.shp"), rel("dem.tif")] if units == "csvl" else [""])
            grads = units != "csv"
            for v, n in (("precipitation", "RhiresD"), ("temperature", "TabsD")) + ((("pet", "pet"),) if pet == "g" else ()):
                if src == "f":
                    a += ["nowhere", rel("grid_" + v), "*.zip", n + "_*.nc"]
                else:
                    a += [rel(v + ".nc")]
                t, y, xx = w.grid.dims
                a += ["zz", n, t, xx, y] if told else ["", "", "", ""]
                a += ["" if src == "l" else "2056"] if not told else ["CH", "2056"]
            if pet != "g":
                a += [""]
                if units == "csv":
                    a += ["46.8"]
        a += [""]                                           # no discharge
        first, last = day(2).isoformat(), day(21).isoformat()
        a += ["", ""] if answers == "taken" else [first, last]
        a += ["", "3", "res"]
        r, out, err, left = quietly(lambda: cli.main(["init", target]), a)
        x.same((r, left), (0, []), "wizard", "exit code and answers left")
        if answers == "taken":
            first, last = day(0).isoformat(), day(N_DAYS - 1).isoformat()
        x.check("covers %s to %s" % (day(0).isoformat(), day(N_DAYS - 1).isoformat()) in out, "covers", "what the data covers: %s", [l for l in out.split("\n") if "covers" in l])
        c = yaml.safe_load(open(target, encoding="utf-8"))
        at = lambda f: os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(target)), f))
        hu = c["hydro_units"]
        want = {"file": "units.csv"} if units.startswith("csv") else {"outline": "outline.shp", "dem": "dem.tif"}
        if source == "gridded" and units.startswith("csv"):
            want["unit_ids_raster"] = "ids.tif"
            if units == "csvl":
                want.update(outline="outline.shp", dem="dem.tif")
        x.same({k: at(v) for k, v in hu.items() if isinstance(v, str)}, {k: os.path.realpath(os.path.join(data, v)) for k, v in want.items()}, "files", "files of the units")
        x.same(hu.get("discretization"), cut or None, "cut", "how the units are cut")
        f = c["forcing"]
        if source == "gridded":
            for v, n in (("precipitation", "RhiresD"), ("temperature", "TabsD"), ("pet", "pet")):
                if v == "pet" and pet != "g":
                    x.check("pet" not in f["gridded"], "grid", "pet not asked for")
                    continue
                s = dict(f["gridded"][v])
                q = w.source(v)
                x.same(at(s.pop("path")), os.path.realpath(os.path.join(data, q.pop("path"))), "files", "path of " + v)
                q.setdefault("dim_time", "time"), q.setdefault("dim_x", "x"), q.setdefault("dim_y", "y")
                q.pop("elevation_gradient", None)
                if told:
                    q["crs"] = 2056
                if grads and v != "pet":
                    q["elevation_gradient"] = True
                x.same(s, q, "grid", "source of " + v)
        x.same(c["periods"], {"simulation": [D(first), D(last)], "spinup": "3"}, "periods", "periods")
        # the file is a project, and it runs
        r, out, err, _ = quietly(lambda: cli.main(["validate", target]))
        x.same(r, 0, "validate", "exit code of validate: %s" % err)
        p = hb.load_project(target)
        fill(p.parameters)
        got = p.run()
        x.check(len(got) == (N_DAYS if answers == "taken" else 20) and np.isfinite(got.to_numpy()).all() and got.sum() > 0, "run", "discharge %s", got.to_numpy())
        x.step(20)
        x.state(m, units, round(float(got.sum()), 9))
    finally:
        os.chdir(old)


def D(s):
    import datetime
    return datetime.date.fromisoformat(s)


CSVS = ["csv:", "csv:r", "csv:l", "csv:lr", "csv:k", "csv:lk", "csv:lrk", "csv:rs"]
HOW = ["dict", "abs", "yaml", "base"]


def cases(tier):
    full = tier == "thorough"
    cuts = ["cut:" + k for k in CUTS] + CSVS
    # where the units and each variable come from
    for cut, p, t, pet in itertools.product(cuts, "sgdam", "sgda", ("s", "g", "lat", "land")):
        if full or (p in "sgd" and t in "sgd") or (cut in ("cut:e50", "csv:lr") and pet in ("s", "land")):
            yield "run/%s.%s.%s.%s.lin.p.dict.now.s" % (cut, p, t, pet)
    # models, files and ways of telling it
    for model, cut, (p, t, pet), src in itertools.product(MODELS, ("cut:e30", "cut:q4", "csv:lr", "csv:r", "csv:l"), (("g", "g", "g"), ("S", "S", "land"), ("g", "S", "lat"), ("S", "d", "land")), ("p", "l", "f")):
        if model == "gla" and cut.startswith("cut"):
            continue
        yield "run/%s.%s.%s.%s.%s.%s.dict.now.s" % (cut, p, t, pet, model, src)
    for cut, src, how, when, per in itertools.product(("cut:e50", "cut:q2", "csv:lrs", "csv:l"), ("p", "l", "f", "ph", "fh"), HOW, ("now", "later"), "sl"):
        for p, t, pet in (("g", "d", "land"), ("S", "g", "g"), ("S", "S", "land")):
            yield "run/%s.%s.%s.%s.lin.%s.%s.%s.%s" % (cut, p, t, pet, src, how, when, per)
    for cut, p, t, pet, model, n in itertools.product(("cut:e50", "csv:lr"), "sSgdm", "sSgda", ("s", "g", "lat", "land"), ("lin", "gr4"), NAMES):
        if full or model == "lin" and not (p in "dm" and t in "da"):
            yield "alias/%s.%s.%s.%s.%s.%s" % (cut, p, t, pet, model, n)
    for b in RULES:
        for k in range(len(RULES[b])):
            yield "fault/%s.%d" % (b, k)
    for k in range(len(special())):
        yield "special/%d" % k
    for m, u, s, src, pet, where, a in itertools.product(("socont", "gr4j") if not full else ("socont", "gr4j", "hbv96", "gr6j"), ("csv", "csvl", "e", "q", "d"), ("station", "gridded"), "plf",
                                                         ("g", "lat"), ("here", "there", "abs"), ("told", "taken", "def")):
        if s == "station" and (src != "p" or u.startswith("csv") or a == "told"):
            continue
        if not full and m == "gr4j" and where != "here":
            continue
        yield "wizard/%s.%s.%s.%s.%s.%s.%s" % (m, u, s, src, pet, where, a)


def run(case, x):
    kind, _, spec = case.partition("/")
    return globals()["run_" + kind](spec, x)
