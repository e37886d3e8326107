"""M11: a project file stands for the steps it describes: same model, data, parameters and results; anything wrong is refused, at once."""
import builtins
import contextlib
import copy
import datetime
import io

import yaml

from props.common import *
from hydrobricks import cli
from hydrobricks.models.custom import CustomModel

D = datetime.date
N_DAYS = 24
START = D(2000, 12, 22)
WORD = [2, 0, 1, 3, 5, 4, 2, 1, 0, 3, 4, 5, 5, 3, 1, 1, 4, 0, 2, 3, 5, 1, 4, 3]
UNITS = [(4, 8.1e5, 700, 14.0, 6e5), (2, 4.3e5, 1350, 31.0, 4.3e5), (9, 1.27e6, 2210, 22.0, 1.2e5)]   # id, area, elevation, slope, open area
FORMATS = ["%Y-%m-%d", "%d/%m/%Y", "%m/%d/%Y", "%d.%m.%Y", "%Y/%m/%d", "%d-%m-%Y", "%Y%m%d"]


def day(k):
    return START + datetime.timedelta(days=k)


def world(x, fmt="%Y-%m-%d", names=None, sub=""):
    """Files of a catchment. names: {what: column}"""
    n = dict(time="date", p="precip(mm/day)", t="temp(C)", pet="pet_sim(mm/day)", rad="rad", tmin="tmin", tmax="tmax",
             z="elevation", a="area", s="slope", q="Discharge (mm/d)", qt="Date")
    n.update(names or {})
    d = x.dir()
    if sub:
        d = os.path.join(d, sub)
        os.makedirs(d)

    def put(name, head, rows):
        import csv
        with open(os.path.join(d, name), "w", newline="") as f:
            w = csv.writer(f)
            for r in head + rows:
                w.writerow(r)
    put("units.csv", [["id", n["z"], n["a"], n["s"], "open_a", "ice_a"], ["-", "m", "m2", "degrees", "m2", "m2"]],
        [[i, z, a, s, o, a - o] for i, a, z, s, o in UNITS])
    put("flat.csv", [["id", n["z"], n["a"]], ["-", "m", "m2"]], [[i, z, a] for i, a, z, s, o in UNITS])
    put("meteo.csv", [[n["time"], n["p"], n["t"], n["tmin"], n["tmax"], n["pet"], n["rad"]]],
        [[day(k).strftime(fmt)] + list(DAYS[w]) for k, w in enumerate(WORD)])
    put("q.csv", [[n["qt"], n["q"]]], [[day(k).strftime(fmt), repr(0.5 + (k * 7 % 11) / 3)] for k in range(2, N_DAYS)])
    return d, n


STRUCT = {
    "name": "mine", "options": {"snow_melt_process": "melt:degree_day"},
    "bricks": {
        "open": {"kind": "land_cover", "processes": {"infiltration": {"kind": "infiltration:socont", "target": "soil"},
                                                     "runoff": {"kind": "outflow:rest", "target": "quick"}}},
        "soil": {"kind": "storage", "parameters": {"capacity": 90},
                 "processes": {"et": {"kind": "et:socont"}, "outflow": {"kind": "outflow:linear", "target": "outlet"},
                               "overflow": {"kind": "overflow", "target": "outlet"}}},
        "quick": {"kind": "storage", "processes": {"runoff": {"kind": "outflow:linear", "target": "outlet"}}}},
    "aliases": {"soil:capacity": "A", "soil:response_factor": "k_slow", "quick:response_factor": "k_quick"},
    "constraints": [["k_slow", "<", "k_quick"]]}

MODELS = {
    "lin": (models.Socont, "socont", {"soil_storage_nb": 2, "surface_runoff": "linear_storage"},
            {"A": 90, "a_snow": 3.5, "k_slow_1": 0.08, "k_slow_2": 0.01, "percol": 1, "k_quick": 0.4}),
    "kin": (models.Socont, "Socont", {}, {"A": 60, "a_snow": 4, "k_slow": 0.05, "beta": 700}),
    "gla": (models.Socont, "SOCONT", {"surface_runoff": "linear_storage", "land_cover_names": ["open", "ice"], "land_cover_types": ["open", "glacier"]},
            {"A": 60, "a_snow": 4, "a_ice": 6.5, "k_slow": 0.05, "k_quick": 0.5, "k_snow": 0.3, "k_ice": 0.35}),
    "hbv": (models.HBV96, "HBV-96", {}, {}),
    "gr4": (models.GR4J, "gr_4j", {"snow_melt_process": "melt:degree_day"}, {}),
    "gr6": (models.GR6J, "GR6J", {"discrete": False}, {}),
    "own": (None, None, {}, {"A": 70, "a_snow": 2.5, "k_slow": 0.06, "k_quick": 0.5}),
}
# forcing: how each variable is told
PET = ["given", "lat", "Hamon"]
PRECIP = ["", "c", "g", "cg", "C", "G", "CG"]        # correction, gradient, told by a number or as a parameter
TEMP = ["", "g", "0", "G"]
EXTRA = ["", "rad", "tm"]


def config(d, n, model="lin", pet="given", p="", t="", extra="", per="s", spin=None, obs=1, units="csv", fmt="%Y-%m-%d"):
    cls, name, opt, par = MODELS[model]
    c = {"model": {"options": copy.deepcopy(opt)} if opt else {}}
    if cls:
        c["model"]["name"] = name
    else:
        c["model"]["structure"] = copy.deepcopy(STRUCT)
    hu = {"file": "units.csv"}
    cols = {}
    if n["z"] != "elevation":
        cols["elevation"] = n["z"]
    if n["a"] != "area" and model != "gla":
        cols["area"] = n["a"]
    if model == "kin" or units == "slope":
        cols["slope"] = n["s"]
    if cols:
        hu["columns"] = cols
    if model == "gla":
        hu["land_cover_areas"] = {"open": "open_a", "ice": "ice_a"}
    c["hydro_units"] = hu
    f = {"file": "meteo.csv", "columns": {"precipitation": n["p"], "temperature": n["t"]}, "ref_elevation": 1250}
    if pet == "given":
        f["columns"]["pet"] = n["pet"]
    else:
        f["pet"] = {"latitude": 46.8}
        if pet != "lat":
            f["pet"]["method"] = pet
    dp = {}
    if p:
        f["precipitation"] = {}
        if p[0] in "cC":
            f["precipitation"]["correction_factor"] = 0.85 if p[0] == "c" else "param:pcf"
            if p[0] == "C":
                dp["pcf"] = {"value": 1.15, "min": 0.5, "max": 2}
        if p[-1] in "gG":
            f["precipitation"]["gradient"] = 0.04 if p[-1] == "g" else "param:pgrad"
            if p[-1] == "G":
                dp["pgrad"] = 0.06
    if t:
        f["temperature"] = {"gradient": {"g": -0.52, "0": 0, "G": "param:tgrad"}[t]}
        if t == "G":
            dp["tgrad"] = {"value": -0.7}
    if extra == "rad":
        f["columns"]["solar_radiation"] = n["rad"]
    if extra == "tm":
        f["columns"]["temperature_min"], f["columns"]["temperature_max"] = n["tmin"], n["tmax"]
    if fmt != "%Y-%m-%d" or n["time"] != "date":
        f["time"] = {}
        if n["time"] != "date":
            f["time"]["column"] = n["time"]
        if fmt != "%Y-%m-%d":
            f["time"]["format"] = fmt
    c["forcing"] = f
    if obs:
        c["observations"] = {"file": "q.csv", "time": {"column": n["qt"], "format": fmt}, "column": n["q"]}
    iso = lambda k: day(k).isoformat()
    c["periods"] = {"s": {"simulation": [iso(2), iso(21)]}, "l": [iso(2), iso(21)], "d": {"simulation": [day(2), day(21)]},
                    "cv": {"calibration": [iso(2), iso(12)], "validation": [iso(13), iso(21)]},
                    "vc": {"calibration": [iso(9), iso(21)], "validation": [iso(2), iso(8)]},
                    "c": {"calibration": [iso(3), iso(20)]}, "v": {"validation": [iso(3), iso(20)]},
                    "cvs": {"calibration": [iso(4), iso(10)], "validation": [iso(13), iso(19)], "simulation": [iso(0), iso(N_DAYS - 1)]}}[per]
    if spin is not None:
        c["periods"]["spinup"] = spin
    c["output"] = "out"
    if par:
        c["parameters"] = dict(par)
    if dp:
        c["data_parameters"] = dp
    return c


def explicit(d, n, c, m, out):
    """The steps of the documentation, one by one."""
    cls = MODELS[m][0]
    hu = hb.HydroUnits()
    f = c["forcing"]
    cols = c["hydro_units"].get("columns", {})
    other = {k: v for k, v in cols.items() if k not in ("elevation", "area")} or None
    kw = dict(column_elevation=n["z"], other_columns=other)
    if m == "gla":
        kw["columns_areas"] = {"open": "open_a", "ice": "ice_a"}
    else:
        kw["column_area"] = n["a"]
    if m == "gla":
        hu = hb.HydroUnits(["open", "glacier"], ["open", "ice"])
    hu.load_from_csv(os.path.join(d, "units.csv"), **kw)
    fo = hb.Forcing(hu)
    fmt = f.get("time", {}).get("format", "%Y-%m-%d")
    fo.load_station_data_from_csv(os.path.join(d, "meteo.csv"), column_time=n["time"], time_format=fmt, content=dict(f["columns"]))
    p = f.get("precipitation", {})
    if "correction_factor" in p:
        fo.correct_station_data(variable="precipitation", correction_factor=p["correction_factor"])
    if "gradient" in p:
        fo.spatialize_from_station_data(variable="precipitation", ref_elevation=1250, gradient=p["gradient"])
    else:
        fo.spatialize_from_station_data(variable="precipitation", method="constant")
    fo.spatialize_from_station_data(variable="temperature", ref_elevation=1250, gradient=f.get("temperature", {}).get("gradient", -0.6))
    for v in f["columns"]:
        if v not in ("precipitation", "temperature"):
            fo.spatialize_from_station_data(variable=v, method="constant")
    if "pet" not in f["columns"]:
        fo.compute_pet(method=f["pet"].get("method", "Oudin"), use=["t", "lat"], lat=46.8)
    model = cls(**MODELS[m][2]) if cls else CustomModel(copy.deepcopy(STRUCT))
    ps = model.generate_parameters()
    for k, v in c.get("data_parameters", {}).items():
        if isinstance(v, dict):
            ps.add_data_parameter(k, v["value"], v.get("min"), v.get("max"))
        else:
            ps.add_data_parameter(k, v)
    if MODELS[m][3]:
        ps.set_values(MODELS[m][3])
    return hu, fo, model, ps


SPAN = {"s": (2, 21), "l": (2, 21), "d": (2, 21), "cv": (2, 21), "vc": (2, 21), "c": (3, 20), "v": (3, 20), "cvs": (0, N_DAYS - 1)}
PARTS = {"cv": {"calibration": (2, 12), "validation": (13, 21)}, "vc": {"calibration": (9, 21), "validation": (2, 8)}, "c": {"calibration": (3, 20)},
         "v": {"validation": (3, 20)}, "cvs": {"calibration": (4, 10), "validation": (13, 19)}}


def compare(x, d, n, c, m, project, per, spin, a=None, b=None, days=None, out="out", how=""):
    """The project is the explicit model over days a..b, with so many days of spin-up."""
    if a is None:
        a, b = SPAN[per]
    days = days if days is not None else {None: 0, "1y": 365, "1Y": 365}.get(spin, spin if isinstance(spin, int) else int(str(spin).rstrip("d")) if spin not in (None, "1y", "1Y") else 0)
    hu, fo, model, ps = explicit(d, n, c, m, out)
    od = os.path.join(d, "ref")
    os.makedirs(od, exist_ok=True)
    model.setup(spatial_structure=hu, output_path=od, start_date=day(a).isoformat(), end_date=day(b).isoformat(), spinup=days)
    x.same(os.path.realpath(str(project.output_dir)), os.path.realpath(os.path.join(d, out)), "output", "output directory")
    x.check(os.path.isdir(str(project.output_dir)), "output", "the output directory is not there")
    for p in (project.parameters, ps):
        fill_gaps(p)
    q1 = {(r["component"], r["name"]): r["value"] for _, r in ps.parameters.iterrows()}
    q2 = {(r["component"], r["name"]): r["value"] for _, r in project.parameters.parameters.iterrows()}
    x.same(q2, q1, "parameters", "parameters")
    # (the entries of a mapping come in any order)
    q1, q2 = ([str((r["component"], r["name"], *(None if v is None else float(v) for v in (r["min"], r["max"])))) for _, r in p.parameters.iterrows()] for p in (ps, project.parameters))
    x.same(*((sorted(q2), sorted(q1)) if how == "sorted" else (q2, q1)), "ranges", "ranges of the parameters")
    got = project.run()
    model.run(parameters=ps, forcing=fo)
    want = model.get_outlet_discharge()
    x.same(len(got), b - a + 1, "length", "days of discharge")
    x.same([t.strftime("%Y-%m-%d") for t in got.index], [day(k).isoformat() for k in range(a, b + 1)], "dates", "dates of the discharge")
    x.check(np.array_equal(got.to_numpy(), np.asarray(want)) or how == "sorted" and np.allclose(got.to_numpy(), np.asarray(want), 1e-9, 1e-12), "discharge", "discharge %s..., the same steps give %s...", got.to_numpy()[:4].tolist(), np.asarray(want)[:4].tolist())
    x.check(float(np.sum(want)) > 0, "dry", "no discharge")
    s1, s2 = ({str(k): np.asarray(f.data2D.data[i]) for i, k in enumerate(f.data2D.data_name)} for f in (fo, project.forcing))
    x.same(sorted(s2), sorted(s1), "forcing", "series of the units")
    for k in s1:
        x.check(np.array_equal(s1[k], s2[k]), "forcing", "%s of the units", k)
    if "observations" in c and project.observations is not None:
        obs = np.asarray(project.observations.data[0] if isinstance(project.observations.data, list) else project.observations.data).ravel()
        a0, b0 = SPAN[per]
        ref = [0.5 + (k * 7 % 11) / 3 if k >= 2 else float("nan") for k in range(a0, b0 + 1)]
        if a0 >= 2:
            x.close(obs, ref, 1e-12, "observations", "observations of the span")
    else:
        x.check(("observations" in c) == (project.observations is not None), "observations", "observations: %r", project.observations)
    for k, (i, j) in PARTS.get(per, {}).items():
        x.same(getattr(project.periods, k).bounds, (day(i).isoformat(), day(j).isoformat()), "periods", k)
    x.step(b - a + 1)
    x.state(round(float(np.sum(want)), 6), a, b, days)


def fill_gaps(ps):
    if ps.is_valid():
        return
    known = {r["component"] + ":" + r["name"]: r["value"] for _, r in ps.parameters.iterrows() if r["value"] is not None}
    fill(ps)
    ps.set_values(known) if known else None


def load(x, c, d, how, setup=True):
    """The configuration given as a mapping or as a file, with the paths told in different ways."""
    c = copy.deepcopy(c)
    if how == "abs":
        for s in ("hydro_units", "forcing", "observations"):
            if s in c:
                c[s]["file"] = os.path.join(d, c[s]["file"])
        c["output"] = os.path.join(d, c["output"])
        return hb.load_project(c, setup=setup)
    if how == "dict":
        before = copy.deepcopy(c)
        p = hb.load_project(c, base_dir=d, setup=setup)
        x.same(c, before, "modified", "the mapping of the caller")
        return p
    if how == "cwd":
        old = os.getcwd()
        os.chdir(d)
        try:
            return hb.load_project(c, setup=setup)
        finally:
            os.chdir(old)
    where = d if how != "base" else x.dir()
    if isinstance(c["model"].get("structure"), dict) and how == "path":
        with open(os.path.join(d, "structure.yaml"), "w") as f:
            yaml.safe_dump(c["model"]["structure"], f, sort_keys=False)
        c["model"]["structure"] = "structure.yaml"
    p = os.path.join(where, "project.yaml")
    with open(p, "w") as f:
        yaml.safe_dump(c, f, sort_keys=how == "sorted")
    if how == "base":
        return hb.load_project(p, base_dir=d, setup=setup)
    import pathlib
    return hb.load_project(pathlib.Path(p) if how == "path" else p, setup=setup)


HOW = ["dict", "abs", "cwd", "yaml", "sorted", "path", "base"]
PERIODS = ["s", "l", "d", "cv", "vc", "c", "v", "cvs"]
SPIN = [None, 0, 5, 40, "3d", "1y", "7"]
WHEN = ["now", "later", "calibration", "validation", "simulation", "pair", "period"]


def cases(tier):
    full = tier == "thorough"
    for m, pet, p, t in itertools.product(("lin", "own"), PET, PRECIP, TEMP):
        yield "run/%s.%s.%s.%s..s.-.1.dict.now" % (m, pet, p, t)
    for m, e, how in itertools.product(MODELS, EXTRA, HOW):
        yield "run/%s.lat.cg.g.%s.cv.3d.1.%s.now" % (m, e, how)
    for per, s, w in itertools.product(PERIODS, range(len(SPIN)), WHEN):
        if per == "l" and SPIN[s] is not None or w in ("calibration", "validation") and w not in PARTS.get(per, {}):
            continue
        yield "run/%s.given.CG.G..%s.%s.0.yaml.%s" % ("lin" if not full else "gla", per, "-" if SPIN[s] is None else SPIN[s], w)
        if full:
            yield "run/own.lat.cg.g..%s.%s.1.dict.%s" % (per, "-" if SPIN[s] is None else SPIN[s], w)
    for m in MODELS if full else ("lin", "kin", "gla", "own"):
        for k in range(len(FORMATS)):
            for names in range(3):
                yield "run/%s.given.g.g..cv.5.1.%s.now.%d.%d" % (m, ("yaml", "dict")[k % 2], k, names)
    if full:
        for m, pet, p, t, per, how in itertools.product(MODELS, ("given", "lat"), PRECIP, TEMP, ("s", "cvs"), ("dict", "yaml")):
            yield "run/%s.%s.%s.%s.rad.%s.4.1.%s.now" % (m, pet, p, t, per, how)
    for b in BASES:
        c = bases(b)
        for k, (path, spec) in enumerate(nodes(c)):
            yield "fault/%s.%d" % (b, k)
    for b in BASES:
        k = len(list(FAULTS))
        for i in range(k):
            yield "pair/%s.%d" % (b, i)
    for k in range(len(SPECIAL)):
        yield "special/%d" % k
    for script in wizard_cases(full):
        yield "wizard/" + script
    for k in range(len(CLI)):
        yield "cli/%d" % k


NAMES = [{}, {"time": "2000-01-01", "p": "P", "t": "T, mean", "pet": "no", "z": "alt: m", "a": "12", "q": "Q #1", "qt": "null"},
         {"time": "- jour", "p": "1e3", "t": "0x1F", "pet": "1_0", "z": "[z]", "a": "a'b", "q": "Débit \"m\"", "qt": "true"}]


def run_run(spec, x):
    v = spec.split(".")
    m, pet, p, t, extra, per, spin, obs, how, when = v[:10]
    fmt = FORMATS[int(v[10])] if len(v) > 10 else "%Y-%m-%d"
    d, n = world(x, fmt, NAMES[int(v[11])] if len(v) > 11 else None)
    spin = None if spin == "-" else int(spin) if spin.isdigit() and spin != "7" else spin
    c = config(d, n, m, pet, p, t, extra, per, spin, int(obs), fmt=fmt)
    project = load(x, c, d, how, setup=when == "now")
    a, b = SPAN[per]
    days = None
    if when == "now" or when == "later":
        if when == "later":
            project.setup()
    else:
        if when in ("calibration", "validation"):
            a, b = PARTS[per][when]
            project.setup(when)
        elif when == "simulation":
            project.setup("simulation")
        else:
            a, b = 6, 15
            pair = (day(a).isoformat(), day(b).isoformat())
            project.setup(pair if when == "pair" else hb.Period(*pair))
        want = {None: 0, "1y": 365}.get(spin, int(str(spin).rstrip("d")) if spin not in (None, "1y") else 0)
        days = min(want, b - a + 1)
    compare(x, d, n, c, m, project, per, spin, a, b, days, how=how)
    if when == "now" and how == "dict":
        x.check(refused(lambda: project.setup("spinup")) is not None, "accepted", "set up over a period that is not declared")


# --------------------------------------------------------------------------------------------------------------- faults
BASES = ["st", "rich", "own", "gla"]


def bases(b, n=None):
    n = n or dict(time="date", p="precip(mm/day)", t="temp(C)", pet="pet_sim(mm/day)", rad="rad", tmin="tmin", tmax="tmax",
                  z="elevation", a="area", s="slope", q="Discharge (mm/d)", qt="Date")
    if b == "st":
        return config(None, n, "lin", obs=0, per="s")
    if b == "rich":
        c = config(None, n, "kin", "Hamon", "CG", "G", "rad", "cvs", 5, 1)
        c["forcing"]["time"] = {"column": "date", "format": "%Y-%m-%d"}
        c["hydro_units"]["columns"] = {"elevation": "elevation", "area": "area", "slope": "slope"}
        return c
    if b == "own":
        return config(None, n, "own", "lat", "cg", "g", "", "cv", "3d", 1)
    return config(None, n, "gla", "given", "c", "", "", "c", None, 1)


NUM, NUMP, STR, FILE, COL, MAP, DICT = "number", "number or reference", "string", "file", "column", "mapping", "free mapping"
# what each entry has to be, and whether it has to be there
SPECS = {
    ("model",): (MAP, True), ("model", "name"): (STR, True), ("model", "structure"): ("structure", True), ("model", "options"): (DICT, None),
    ("hydro_units",): (MAP, True), ("hydro_units", "file"): (FILE, True), ("hydro_units", "columns"): (MAP, None),
    ("hydro_units", "columns", "*"): (COL, None), ("hydro_units", "land_cover_areas"): (MAP, None), ("hydro_units", "land_cover_areas", "*"): (COL, None),
    ("forcing",): (MAP, True), ("forcing", "file"): (FILE, True), ("forcing", "columns"): (MAP, True), ("forcing", "columns", "*"): (COL, None),
    ("forcing", "ref_elevation"): (NUM, True), ("forcing", "time"): (MAP, False), ("forcing", "time", "column"): (COL, False),
    ("forcing", "time", "format"): (STR, False), ("forcing", "temperature"): (MAP, False), ("forcing", "temperature", "gradient"): (NUMP, False),
    ("forcing", "precipitation"): (MAP, False), ("forcing", "precipitation", "correction_factor"): (NUMP, False),
    ("forcing", "precipitation", "gradient"): (NUMP, False), ("forcing", "pet"): (MAP, True), ("forcing", "pet", "latitude"): (NUM, True),
    ("forcing", "pet", "method"): (STR, False),
    ("observations",): (MAP, False), ("observations", "file"): (FILE, True), ("observations", "column"): (COL, True),
    ("observations", "time"): (MAP, None), ("observations", "time", "column"): (COL, None), ("observations", "time", "format"): (STR, None),
    ("periods",): ("periods", True), ("periods", "simulation"): ("period", None), ("periods", "calibration"): ("period", None),
    ("periods", "validation"): ("period", None), ("periods", "spinup"): ("spinup", None),
    ("output",): (STR, False), ("parameters",): (DICT, False), ("parameters", "*"): (NUM, None),
    ("data_parameters",): (DICT, True), ("data_parameters", "*"): ("data", True), ("data_parameters", "*", "value"): (NUM, True),
    ("data_parameters", "*", "min"): (NUM, False), ("data_parameters", "*", "max"): (NUM, False)}
BAD = [None, True, 5, -2.5, "zzz", "", [], {}, [1, 2, 3], {"zzz": 1}, [{}], D(2001, 1, 1), float("nan"), ["2001-01-01", "1999-01-01"], ["a", "b"], {1: 2}]


def spec_of(path):
    for k, v in SPECS.items():
        if len(k) == len(path) and all(a in ("*", b) for a, b in zip(k, path)):
            return v
    return None


def nodes(c):
    """The entries of the configuration the rules know."""
    def walk(v, path):
        for k, q in v.items():
            p = path + (k,)
            s = spec_of(p)
            if s:
                yield p, s
                if isinstance(q, dict) and s[0] in (MAP, DICT, "data", "periods") and p != ("model", "options"):
                    yield from walk(q, p)
    return list(walk(c, ()))


def set_at(c, path, v, drop=False):
    c = copy.deepcopy(c)
    q = c
    for k in path[:-1]:
        q = q[k]
    if drop:
        del q[path[-1]]
    else:
        q[path[-1]] = v
    return c


def expected(kind, need, v):
    """True: has to be refused; False: has to be accepted; None: not said."""
    if v is None:
        return need if need is not None else None
    num = isinstance(v, (int, float)) and not isinstance(v, bool)
    if kind == NUM:
        return None if num else True
    if kind == NUMP:
        return None if num else True
    if kind == COL and v == "" and need is False:
        return None                       # the default
    if kind in (FILE, COL):
        return True                       # no such file, no such column
    if kind == STR:
        return None if isinstance(v, str) else True
    if kind in (MAP, DICT):
        return None if isinstance(v, dict) or not v else True
    if kind == "structure":
        return True if v != {} else None
    if kind == "periods":
        return True
    if kind == "period":
        return None if not v else True
    if kind == "spinup":
        return None if num and v == 5 else True if not (isinstance(v, int) and v >= 0) or isinstance(v, bool) else None
    if kind == "data":
        return None if num else True
    return None


def attempt(x, c, d, what):
    """None when accepted, else the message; anything but the package's own error is a defect."""
    try:
        hb.load_project(copy.deepcopy(c), base_dir=d, setup=False)
        return None
    except hb.HydroBricksError as e:
        return str(e.args[0]) if e.args else str(e)
    except Exception as e:
        from pyexplore import shim_limit
        if shim_limit(e):
            raise
        x.check(False, "crash", "%s: %s: %s", what, type(e).__name__, e)


def dotted(path):
    return ".".join(map(str, path))


def run_fault(spec, x):
    b, k = spec.split(".")
    d, n = world(x)
    c = bases(b, n)
    path, (kind, need) = nodes(c)[int(k)]
    x.check(attempt(x, c, d, "unchanged") is None, "refused", "the configuration itself is refused")
    name = dotted(path)
    m = attempt(x, set_at(c, path, None, drop=True), d, "without " + name)
    if need is not None:
        x.check((m is not None) == need, "absent", "without %s: %s", name, "accepted" if m is None else "refused: " + m)
    x.step()
    for v in BAD:
        want = expected(kind, need, v)
        what = "%s: %r" % (name, v)
        m = attempt(x, set_at(c, path, v), d, what)
        x.step()
        x.state(b, k, repr(v), m is None)
        if want is not None:
            x.check((m is not None) == want, "accepted" if want else "refused", "%s is %s", what, "accepted" if m is None else "refused: " + m)
        if m is not None and want and path[0] != "periods":
            x.check((path[-1] if v is None or path[-1] == "structure" else dotted(path)) in m, "location", "%s: the message does not say where: %s", what, m)
    # a misspelt entry
    if isinstance(path[-1], str) and path[:1] != ("parameters",) and path[:2] not in (("forcing", "columns"), ("hydro_units", "land_cover_areas"), ("hydro_units", "columns")) and \
            (path[0] != "data_parameters" or len(path) == 3) and path[:2] != ("model", "options"):
        q = c
        for p in path[:-1]:
            q = q[p]
        w = path[-1][:-1] + ("x" if path[-1][-1] != "x" else "y")
        m = attempt(x, set_at(set_at(c, path, None, drop=True), path[:-1] + (w,), copy.deepcopy(q[path[-1]])), d, "misspelt " + name)
        x.check(m is not None and w in m and "did you mean" in m, "misspelt", "%s written %s: %s", name, w, m)
        m = attempt(x, set_at(c, path[:-1] + ("qqq",), 1), d, "unknown entry beside " + name)
        x.check(m is not None and "qqq" in m, "unknown", "an unknown entry beside %s: %s", name, m)


# independent problems: (path, value, what the message has to say); reported together
FAULTS = [(("hydro_units", "file"), "nofile.csv", "nofile.csv"), (("hydro_units", "zfile"), 1, "zfile"), (("forcing", "file"), "nomet.csv", "nomet.csv"),
          (("forcing", "ref_elevation"), "high", "forcing.ref_elevation"), (("forcing", "temperature"), {"gradients": 1}, "gradients"),
          (("forcing", "precipitation"), {"gradient": "x"}, "forcing.precipitation.gradient"), (("forcing", "pet"), {"latitud": 3}, "latitud'"),
          (("observations",), {"file": "noq.csv", "column": "q"}, "noq.csv"), (("output",), 5, "output"), (("parameters", "A"), "x", "parameters.A"),
          (("data_parameters",), {"w": {"min": 1}}, "data_parameters.w.value"), (("model", "zname"), 1, "zname"), (("wrong",), 1, "wrong"),
          (("periods",), None, "periods"), (("periods",), ["2001-01-03", "2001-01-01"], "periods"), (("model", "options"), [1], "model.options"),
          (("hydro_units", "columns"), {"elevation": "nocol"}, "nocol"), (("forcing", "columns", "temperature"), "notemp", "notemp")]


def run_pair(spec, x):
    b, i = spec.split(".")
    i = int(i)
    d, n = world(x)
    c = bases(b, n)
    p, v, say = FAULTS[i]
    alone = attempt(x, set_at(c, p, v), d, dotted(p))
    x.check(alone is not None and say in alone, "message", "%s = %r: %s", dotted(p), v, alone)
    for q, w, also in FAULTS[i + 1:]:
        if p[:len(q)] == q or q[:len(p)] == p:
            continue
        # without the file, its columns cannot be looked up
        hidden = "nocol" in (say, also) and "nofile.csv" in (say, also) or "notemp" in (say, also) and "nomet.csv" in (say, also)
        m = attempt(x, set_at(set_at(c, p, v), q, w), d, dotted(p) + ", " + dotted(q))
        x.step()
        x.check(m is not None and (hidden or say in m and also in m), "together", "%s and %s: %s", dotted(p), dotted(q), m)


def special(x, k):
    """(change of the rich configuration, words the refusal has to contain; None: accepted)"""
    def both(c): c["model"]["structure"] = copy.deepcopy(STRUCT)
    def far(c): c["periods"]["simulation"] = [day(0).isoformat(), day(N_DAYS + 3).isoformat()]
    def early(c): c["periods"]["simulation"] = [day(-1).isoformat(), day(N_DAYS - 1).isoformat()]
    def unknown(c): c["parameters"]["bet"] = 3
    def noentry(c): del c["data_parameters"]["pcf"]
    def badref(c): c["forcing"]["temperature"]["gradient"] = "param:a b"
    def noprecip(c): del c["forcing"]["columns"]["precipitation"]
    def notemp(c): del c["forcing"]["columns"]["temperature"]
    def outside(c): c["periods"]["calibration"] = [day(0).isoformat(), day(9).isoformat()]; c["periods"]["simulation"] = [day(2).isoformat(), day(20).isoformat()]
    def overlap(c): c["periods"]["validation"] = [day(9).isoformat(), day(19).isoformat()]
    def gridded(c): c["forcing"]["gridded"] = {"precipitation": {"path": "meteo.csv", "var_name": "p"}}
    def disc(c): c["hydro_units"]["discretization"] = {"method": "equal_intervals"}
    def outline(c): c["hydro_units"]["outline"] = "q.csv"
    def option(c): c["model"]["options"] = {"soil_storage": 2}
    def optval(c): c["model"]["options"] = {"soil_storage_nb": 7}
    def range_(c): c["parameters"]["beta"] = -5
    def aliasname(c): c["parameters"]["surface_runoff:beta"] = c["parameters"].pop("beta")
    def nolat(c): del c["forcing"]["pet"]["latitude"]
    def dataval(c): c["parameters"]["pcf"] = 1.4
    def noforcing(c): c["forcing"] = {"ref_elevation": 3}
    def intcol(c): c["forcing"]["columns"]["temperature"] = 5
    def intunits(c): c["hydro_units"]["columns"]["elevation"] = 7
    def grid2(c): c["forcing"]["gridded"] = {"wind": {"path": "nowhere", "file_pattern": "*.nc", "crs": "x"}}
    def spin(c): c["periods"]["spinup"] = "long"
    L = [(both, "mutually exclusive"), (far, "not covered"), (early, "not covered"), (unknown, "unknown parameter"), (noentry, "param:pcf"), (badref, "forcing.temperature.gradient"),
         (noprecip, "precipitation"), (notemp, "temperature"), (outside, "calibration"), (overlap, None), (gridded, "one source per variable"), (disc, "mutually exclusive"),
         (outline, "provided together"), (option, "soil_storage"), (optval, ""), (range_, ""), (aliasname, None), (nolat, "latitude"), (dataval, None), (noforcing, "forcing"),
         (intcol, "forcing.columns.temperature"), (intunits, "hydro_units.columns.elevation"), (grid2, "forcing.gridded.wind"), (spin, "spin")]
    return L[k]


SPECIAL = list(range(24))


def run_special(spec, x):
    d, n = world(x)
    c = bases("rich", n)
    f, say = special(x, int(spec))
    f(c)
    m = attempt(x, c, d, f.__name__)
    if say is None:
        x.check(m is None, "refused", "%s: refused: %s", f.__name__, m)
        if f.__name__ == "dataval":
            p = hb.load_project(c, base_dir=d)
            x.same(p.parameters.get("pcf"), 1.4, "value", "data parameter given as a parameter")
    else:
        x.check(m is not None and say in m, "accepted", "%s: %s", f.__name__, m)


# ------------------------------------------------------------------------------------------------------- the command line
def wizard_cases(full):
    for m, slope, pet, q, cal, fmt in itertools.product(("socont", "hbv96", "gr4j"), "sn", "pc", "qn", "-c", (0, 1, 2, 6)):
        yield "%s.%s.%s.%s.%s.%d.0.here.30" % (m, slope, pet, q, cal, fmt)
    for fmt in range(len(FORMATS)):
        for names in range(3):
            for where in ("here", "there", "abs"):
                for spin in ("0", "12", "1y", "40d"):
                    if full or fmt in (0, 3) or where == "here" and spin == "12":
                        yield "socont.s.p.q.c.%d.%d.%s.%s" % (fmt, names, where, spin)


def quietly(f, answers=()):
    """(result, printed, complaints) with the answers typed one by one"""
    out, err, it, save = io.StringIO(), io.StringIO(), list(answers), builtins.input
    asked = []

    def typed(prompt=""):
        asked.append(prompt)
        if not it:
            raise AssertionError("asked once more: " + prompt)
        return it.pop(0)
    builtins.input = typed
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            r = f()
    finally:
        builtins.input = save
    return r, out.getvalue(), err.getvalue(), it


def run_wizard(spec, x):
    m, slope, pet, q, cal, fmt, names, where, spin = spec.split(".")
    fmt = FORMATS[int(fmt)]
    extra = NAMES[int(names)]
    d, n = world(x, fmt, extra, sub="data set")
    root = os.path.dirname(d)
    old = os.getcwd()
    os.chdir(root)
    try:
        rel = (lambda f: os.path.join(d, f)) if where == "abs" else (lambda f: "data set/" + f)
        target = {"here": "project.yaml", "there": "sub/project.yaml", "abs": os.path.join(root, "sub", "p.yaml")}[where]
        os.makedirs("sub")
        lat, elev = 46.1234567, 1253.4567
        a = ["none" if m == "x" else m, "csv", "nofile", rel("units.csv" if slope == "s" else "flat.csv"), n["z"], "zzz", n["a"], "station", rel("meteo.csv"),
             n["time"], fmt if names != "0" else "", n["p"], n["t"]]
        a += [n["pet"]] if pet == "p" else ["" if names == "1" else "bad", "", repr(lat)]
        if pet == "c":
            # the proposed column would be taken: ask for none is only possible when nothing is proposed
            return wizard_computed(x, spec)
        a += ["high", repr(elev)]
        a += [rel("q.csv"), n["qt"], fmt if names != "0" else "", n["q"]] if q == "q" else [""]
        a += [day(2).isoformat(), "yesterday", day(21).isoformat(), day(11).isoformat() if cal == "c" else "", spin, "2000-01-01" if names == "1" else "results/one"]
        r, out, err, left = quietly(lambda: cli.main(["init", target]), a)
        x.same((r, left), (0, []), "wizard", "exit code and answers left")
        check_written(x, d, n, m, slope, pet, q, cal, spin, target, elev, lat, fmt, "2000-01-01" if names == "1" else "results/one")
    finally:
        os.chdir(old)


def wizard_computed(x, spec):
    m, slope, pet, q, cal, fmt, names, where, spin = spec.split(".")
    fmt = FORMATS[int(fmt)]
    d, n = world(x, fmt, {"pet": "other"}, sub="data")
    root = os.path.dirname(d)
    old = os.getcwd()
    os.chdir(root)
    try:
        lat, elev = 46.1234567, 1253.4567
        a = [m, "", "data/units.csv" if slope == "s" else "data/flat.csv", "", "", "", "data/meteo.csv", "", "", "", "", "bad", "", "north", repr(lat), repr(elev)]
        a += ["data/q.csv", "", "", ""] if q == "q" else [""]
        a += [day(2).isoformat(), day(21).isoformat(), day(11).isoformat() if cal == "c" else "", spin, "results/one"]
        r, out, err, left = quietly(lambda: cli.main(["init", "project.yaml"]), a)
        x.same((r, left), (0, []), "wizard", "exit code and answers left")
        check_written(x, d, n, m, slope, "c", q, cal, spin, "project.yaml", elev, lat, fmt, "results/one")
    finally:
        os.chdir(old)


def check_written(x, d, n, m, slope, pet, q, cal, spin, target, elev, lat, fmt, output):
    c = yaml.safe_load(open(target, encoding="utf-8"))
    base = os.path.dirname(os.path.abspath(target))
    at = lambda f: os.path.realpath(os.path.join(base, f))
    x.same(c["model"]["name"], m, "model", "model")
    x.same(at(c["hydro_units"]["file"]), at(os.path.join(d, "units.csv" if slope == "s" else "flat.csv")), "file", "units file")
    x.same((c["hydro_units"]["columns"]["elevation"], c["hydro_units"]["columns"]["area"]), (n["z"], n["a"]), "columns", "columns of the units")
    f = c["forcing"]
    x.same(at(f["file"]), at(os.path.join(d, "meteo.csv")), "file", "weather file")
    x.same(f["time"], {"column": n["time"], "format": fmt}, "time", "time of the weather")
    x.same(f["columns"], dict(precipitation=n["p"], temperature=n["t"], **({"pet": n["pet"]} if pet == "p" else {})), "columns", "columns of the weather")
    x.same(f["ref_elevation"], elev, "answer", "elevation of the station")
    x.same(f["temperature"], {"gradient": -0.6}, "answer", "temperature")
    if pet == "c":
        x.same(f["pet"], {"method": "Oudin", "latitude": lat}, "answer", "evapotranspiration")
    if q == "q":
        o = c["observations"]
        x.same((at(o["file"]), o["time"], o["column"]), (at(os.path.join(d, "q.csv")), {"column": n["qt"], "format": fmt}, n["q"]), "observations", "observations")
    else:
        x.check("observations" not in c, "observations", "observations that were not asked for")
    # the file is a project
    p = hb.load_project(target)
    x.same(os.path.realpath(str(p.output_dir)), at(output), "output", "output directory")
    want = {"simulation": (day(2).isoformat(), day(21).isoformat())}
    if cal == "c":
        want.update(calibration=(day(2).isoformat(), day(11).isoformat()), validation=(day(12).isoformat(), day(21).isoformat()))
    x.same({k: v.bounds for k, v in p.periods.defined_periods().items()}, want, "periods", "periods")
    x.same(p.model.spinup_days, {"1y": 365, "40d": 40}.get(spin, int(spin) if spin.isdigit() else None), "spinup", "spin-up")
    # every parameter of the model is proposed, with its range
    text = open(target, encoding="utf-8").read()
    for _, r in p.parameters.get_model_parameters().iterrows():
        name = r["aliases"][0] if r["aliases"] else r["component"] + ":" + r["name"]
        x.check("# %s: " % name in text and "[%s..%s]" % (r["min"], r["max"]) in text, "proposed", "%s is not proposed with its range", name)
    r, out, err, _ = quietly(lambda: cli.main(["validate", target]))
    x.same(r, 0, "validate", "exit code of validate: %s" % err)
    x.check("is valid" in out and "still need a value" in out, "validate", "validate says %r", out)
    # the same project with the values filled in
    fill(p.parameters)
    lines = ["parameters:"]
    for _, r in p.parameters.parameters.iterrows():
        lines.append("  %s: %r" % (("%s:%s" % (r["component"], r["name"])) if not r["aliases"] else r["aliases"][0], float(r["value"])))
    lines = [l if "," not in l.split(": ")[0] else l for l in lines]
    with open(target, "w", encoding="utf-8") as g:
        g.write(text[:text.index("parameters:")] + "\n".join(l if not l.startswith("  ") else '  "%s": %s' % tuple(l[2:].rsplit(": ", 1)) for l in lines) + "\n")
    r, out, err, _ = quietly(lambda: cli.main(["run", target]))
    x.same(r, 0, "run", "exit code of run: %s" % err)
    got = p.run()
    with open(os.path.join(str(p.output_dir), "simulated_discharge.csv")) as g:
        rows = [l.strip().split(",") for l in g]
    x.same([r[0] for r in rows[1:]], [day(k).isoformat() for k in range(2, 22)], "csv", "dates of the discharge written")
    x.close([float(r[1]) for r in rows[1:]], got.to_numpy(), 1e-12, "csv", "discharge written")
    x.check("%.3f mm/d" % got.mean() in out, "mean", "mean discharge %g, printed %r", got.mean(), out)
    x.check(os.path.isfile(os.path.join(str(p.output_dir), "results.nc")), "results", "no results file")
    x.check(("calibration" in out) == (cal == "c" and q == "q"), "scores", "scores printed: %r", out)
    x.step(20)
    x.state(m, round(float(got.mean()), 9))


CLI = ["absent", "broken", "list", "wrong", "exists-n", "exists-y", "interrupt", "args", "unvalued", "one"]


def run_cli(spec, x):
    what = CLI[int(spec)]
    d, n = world(x)
    p = os.path.join(d, "project.yaml")
    c = bases("rich", n)
    if what == "absent":
        for cmd in ("validate", "run"):
            r, out, err, _ = quietly(lambda: cli.main([cmd, p]))
            x.check(r == 1 and "does not exist" in err, "absent", "%s of a missing file: %r %r", cmd, r, err)
    elif what in ("broken", "list"):
        open(p, "w").write("a: [1\nb: }" if what == "broken" else "- 1\n- 2\n")
        r, out, err, _ = quietly(lambda: cli.main(["validate", p]))
        x.check(r == 1 and err, what, "%r %r", r, err)
    elif what == "wrong":
        c["forcing"]["file"] = "nomet.csv"
        c["modle"] = c.pop("model")
        yaml.safe_dump(c, open(p, "w"))
        for cmd in ("validate", "run"):
            r, out, err, _ = quietly(lambda: cli.main([cmd, p]))
            x.check(r == 1 and "nomet.csv" in err and "did you mean 'model'" in err, "wrong", "%r %r", r, err)
            x.check("valid." not in out, "wrong", "printed %r", out)
    elif what == "exists-n":
        open(p, "w").write("keep: me\n")
        r, out, err, _ = quietly(lambda: cli.main(["init", p]), ["maybe", ""])
        x.same((r, open(p).read()), (1, "keep: me\n"), "overwritten", "exit code and file")
    elif what == "interrupt":
        def stop(*a):
            raise KeyboardInterrupt
        save, builtins.input = builtins.input, stop
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                r = cli.main(["init", p])
        finally:
            builtins.input = save
        x.same((r, os.path.exists(p)), (130, False), "interrupt", "exit code, file written")
    elif what == "args":
        for a in ([], ["foo"], ["run"], ["validate"]):
            try:
                r = quietly(lambda: cli.main(a))[0]
            except SystemExit as e:
                r = e.code
            x.check(r not in (0, None), "args", "%r exits with %r", a, r)
    elif what == "unvalued":
        del c["parameters"]
        yaml.safe_dump(c, open(p, "w"))
        r, out, err, _ = quietly(lambda: cli.main(["run", p]))
        x.check(r == 1 and all(k in err for k in ("a_snow", "beta", "[")), "unvalued", "%r %r", r, err)
        x.check(not os.path.exists(os.path.join(d, "out", "simulated_discharge.csv")), "unvalued", "a discharge is written")
    elif what == "one":
        c["periods"]["simulation"] = [day(2).isoformat(), day(N_DAYS - 1).isoformat()]
        yaml.safe_dump(c, open(p, "w"))
        r, out, err, _ = quietly(lambda: cli.main(["run", p]))
        x.same(r, 0, "run", "exit code of run: %s" % err)
        pr = hb.load_project(p)
        q = pr.run()
        for k, s in hb.evaluate_periods(pr.model, pr.observations, pr.periods, metrics=("nse", "kge_2012")).iterrows():
            x.check("%.3f" % s["nse"] in out and "%.3f" % s["kge_2012"] in out and k in out, "scores", "scores of %s: %r", k, out)
    x.step()


def run(case, x):
    kind, _, spec = case.partition("/")
    return globals()["run_" + kind](spec, x)
