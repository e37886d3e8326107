"""M04: the forcing given to the units is the documented function of station data, operations and parameter values."""
import datetime

import pandas as pd

from props.common import *
from hydrobricks.forcing import Forcing

ALL = {"P": ("P", "precipitation", "precip", "p"), "T": ("T", "temperature", "temp", "t"),
       "T_MIN": ("T_MIN", "temperature_min", "min_temperature", "t_min", "tmin"),
       "T_MAX": ("T_MAX", "temperature_max", "max_temperature", "t_max", "tmax"),
       "T_DEW_POINT": ("T_DEW_POINT", "temperature_dew_point", "dew_point_temperature", "t_dew_point", "tdew"),
       "PET": ("PET", "pet"), "RH": ("RH", "relative_humidity", "rh"),
       "RH_MIN": ("RH_MIN", "relative_humidity_min", "min_relative_humidity", "rh_min", "rhmin"),
       "RH_MAX": ("RH_MAX", "relative_humidity_max", "max_relative_humidity", "rh_max", "rhmax"),
       "R_NET": ("R_NET", "net_radiation", "r_net", "r_n", "rn"), "R_SOLAR": ("R_SOLAR", "solar_radiation", "r_solar", "r_s", "rs"),
       "SD": ("SD", "sunshine_duration", "sd"), "WIND": ("WIND", "wind_speed", "wind"), "PRESSURE": ("PRESSURE", "pressure")}
PET = {"Penman": "penman", "Penman-Monteith": "pm", "ASCE-PM": "pm_asce", "FAO-56": "pm_fao56", "Priestley-Taylor": "priestley_taylor",
       "Kimberly-Penman": "kimberly_penman", "Thom-Oliver": "thom_oliver", "Blaney-Criddle": "blaney_criddle", "Hamon": "hamon",
       "Romanenko": "romanenko", "Linacre": "linacre", "Haude": "haude", "Turc": "turc", "Jensen-Haise": "jensen_haise",
       "McGuinness-Bordne": "mcguinness_bordne", "Hargreaves": "hargreaves", "FAO-24 radiation": "fao_24", "Abtew": "abtew",
       "Makkink": "makkink", "Oudin": "oudin"}
PET.update({v: v for v in PET.values()})
PYET = {"T": "tmean", "T_MIN": "tmin", "T_MAX": "tmax", "T_DEW_POINT": "tdew", "RH": "rh", "RH_MIN": "rhmin", "RH_MAX": "rhmax",
        "R_NET": "rn", "R_SOLAR": "rs", "WIND": "wind", "PRESSURE": "pressure", "SD": "n"}
SIGNED = ("T", "T_MIN", "T_MAX", "T_DEW_POINT")
METHOD = {"d": "default", "c": "constant", "a": "additive_elevation_gradient", "m": "multiplicative_elevation_gradient",
          "h": "multiplicative_elevation_threshold_gradients"}
MONTHLY = [0.01 * (k - 4) for k in range(12)]
GRAD = {"f": 0.05, "n": -0.55, "i": 1, "l1": [0.04], "l12": MONTHLY, "li": [1, 0, 2, -1, 0, 3, 1, -2, 0, 1, 2, 0]}
CORR = {"-": [], "m": [("multiplicative", 1.3)], "a": [("additive", -2.0)], "ma": [("multiplicative", 0.5), ("additive", 3)],
        "am": [("additive", 3), ("multiplicative", 2)], "mm": [("multiplicative", 1.5), ("multiplicative", 0.8)]}
UNITS = {"1": [(7, 1000.0, 900)], "4": [(3, 2.5e5, 700), (1, 4e5, 1500), (9, 1e5, 1000), (4, 3e5, 2100)]}
# (first date, days between dates, number of dates): crossing months, years, a leap day
DATES = {"y": ("1999-12-30", 1, 5), "w": ("2000-02-27", 1, 4), "s": ("2000-01-05", 29, 14)}
STATION = [0.0, 12.5, -3.25, 40.0, 7.0, -0.5, 0.25]


def cases(tier):
    full = tier == "thorough"
    for v, names in ALL.items():                     # every variable under every name
        for n in names:
            for meth in "dcamh":
                yield "one/%s.%s.f.ma.1500.4.y" % (n, meth)
    for v in ("P", "temp", "rh") if full else ("P", "temp"):
        for meth, g, c, ref, u, dt in itertools.product("amh", GRAD, CORR, ("600", "1000", "1500", "2500"), UNITS, DATES):
            yield "one/%s.%s.%s.%s.%s.%s.%s" % (v, meth, g, c, ref, u, dt)
    for g1, g2, ref, th in itertools.product(GRAD, GRAD, (600, 1000, 1500, 2500), (500, 1000, 1200, 1500, 1800, 3000)):
        yield "thr/%s.%s.%d.%d" % (g1, g2, ref, th)
    for w in range(6):
        yield "refuse/%d" % w
    ops = "aAbcdgGhHIJKLS"
    for n in range(1, 5 if not full else 6):
        for w in itertools.product(ops, repeat=n):
            if w[-1] in "HIJKL":                      # nothing left to see: parameters only matter when they are applied
                continue
            if n >= 4 and (len(set(w)) < n or not set(w) & set("gG")):
                continue
            yield "seq/" + "".join(w)
    for step, n, start, comp, vs in itertools.product((1, 3, 24, 72), (2, 30), ("2000-01-01 00:00", "1999-12-31 06:00", "2025-06-30 23:00"),
                                                      "01", ("P", "T", "P,T,PET", "T,R_SOLAR,T_MIN,T_DEW_POINT")):
        yield "file/%d.%d.%s.%s.%s" % (step, n, start.replace(" ", "_"), comp, vs)
    for n in range(1, 5 if not full else 6):          # loading station files one after the other
        for w in itertools.product("pqtbsgr", repeat=n):
            if w[0] in "pqtb" and w[-1] in "sg":
                yield "load/" + "".join(w)
    for name in PET:
        for use in ("t.lat", "tmin.tmax.latitude.rs", "t.elevation", "T.rn.rh.wind.pressure.elevation.lat", "tmean.lat", "sd.rhmin.rhmax.tdew"):
            for lat in ("lat", "latitude", "unit"):
                yield "pet/%s/%s/%s" % (name.replace("/", "_"), use, lat)
    for n in range(1, 5 if not full else 6):
        for w in itertools.product("tuaAIgGS", repeat=n):
            if w[-1] in "gG":
                yield "petseq/" + "".join(w)
    for n in (1, 4):
        for w in itertools.product("abc", repeat=n):
            yield "model/" + "".join(w)


def units(rows):
    hu = hb.HydroUnits()
    df = pd.DataFrame({("id", "-"): [r[0] for r in rows], ("area", "m2"): [r[1] for r in rows],
                       ("elevation", "m"): [r[2] for r in rows]})
    hu.hydro_units = df
    return hu


def load_units(d, rows, name="u"):
    path = os.path.join(d, name + ".csv")
    with open(path, "w") as f:
        f.write("id,area,elevation\n-,m2,m\n" + "".join("%d,%g,%g\n" % r for r in rows))
    hu = hb.HydroUnits()
    hu.load_from_csv(path, column_elevation="elevation", column_area="area")
    return hu


def dates(kind):
    s, step, n = DATES[kind]
    return [datetime.datetime.fromisoformat(s) + datetime.timedelta(days=step * k) for k in range(n)]


def table(path, t, cols, fmt="%Y-%m-%d"):
    with open(path, "w") as f:
        f.write("when," + ",".join(cols) + "\n")
        for k, day in enumerate(t):
            f.write(day.strftime(fmt) + "," + ",".join("%r" % c[k] for c in cols.values()) + "\n")
    return path


def grads(g, t):
    if isinstance(g, list):
        return [g[0] if len(g) == 1 else g[d.month - 1] for d in t]
    return [g] * len(t)


def expected(v, data, t, rows, corr, meth, g=None, g2=None, ref=None, thr=None):
    """Value of each (date, unit); None where the documentation leaves it open."""
    x = []
    for e in data:
        for m, c in corr:
            e = e * c if m == "multiplicative" else e + c
        x.append(e)
    if meth == "default":
        meth = {"T": METHOD["a"], "P": METHOD["m"], "PET": METHOD["c"]}[v]
    out = []
    for k in range(len(t)):
        row = []
        for _, _, z in rows:
            if meth == METHOD["c"]:
                e = x[k]
            elif meth == METHOD["a"]:
                e = x[k] + grads(g, t)[k] * (z - ref) / 100
            elif meth == METHOD["m"]:
                e = x[k] * (1 + grads(g, t)[k] * (z - ref) / 100)
            else:
                a, b = grads(g, t)[k], grads(g2, t)[k]
                if z < thr and ref > thr:
                    e = None
                elif z < thr:
                    e = x[k] * (1 + a * (z - ref) / 100)
                elif ref > thr:
                    e = x[k] * (1 + b * (z - ref) / 100)
                else:
                    e = x[k] * (1 + a * (thr - ref) / 100) * (1 + b * (z - thr) / 100)
            if e is not None and v not in SIGNED:
                e = max(e, 0.0)
            row.append(float("nan") if e is None else e)
        out.append(row)
    return np.array(out, dtype=float)


def compare(x, got, want, key, what):
    got = np.array(got, dtype=float)
    open_ = np.isnan(want)
    x.check(got.shape == want.shape, key, "%s has shape %s, expected %s", what, got.shape, want.shape)
    x.close(np.where(open_, 0, got), np.where(open_, 0, want), 1e-9, key, what)


def value(f, v):
    return f.data2D.data[f.data2D.data_name.index(Forcing.Variable[v])]


def run(case, x):
    kind, arg = case.split("/", 1)
    globals()["run_" + kind](arg, x)


def run_one(arg, x):
    name, meth, g, c, ref, u, dt = arg.split(".")
    v = next(k for k, a in ALL.items() if name in a)
    d, rows, t, ref = x.dir(), UNITS[u], dates(dt), float(ref)
    data = [STATION[(k * 3) % 7] for k in range(len(t))]
    hu = load_units(d, rows)
    order = [int(i) for i in hu.hydro_units[("id", "-")].values]
    rows = sorted(rows, key=lambda r: order.index(r[0]))
    f = Forcing(hu)
    content = {name: "col"}
    f.load_station_data_from_csv(table(os.path.join(d, "s.csv"), t, {"other": data[::-1], "col": data}), "when", "%Y-%m-%d", content)
    x.same(content, {name: "col"}, "mutated", "the dictionary given by the caller")
    g2, thr = 0.1, 1200.0
    for m, q in CORR[c]:
        f.correct_station_data(variable=name, method=m, correction_factor=q)
    kw = dict(ref_elevation=ref, gradient=GRAD[g])
    if meth == "h":
        kw.update(gradient_2=g2, elevation_threshold=thr)
        if g == "l12":                               # the documented alias
            kw["gradient_1"] = kw.pop("gradient")
    if meth == "d" and v not in ("P", "T", "PET"):
        f.spatialize_from_station_data(variable=name, **kw)
        x.check(refused(f.apply_operations), "refused", "a default method for %s was accepted", v)
        return
    f.spatialize_from_station_data(variable=name, method=METHOD[meth], **kw)
    want = expected(v, data, t, rows, CORR[c], METHOD[meth], GRAD[g], g2, ref, thr)
    for k in range(3):                               # applying again changes nothing
        f.apply_operations()
        x.step(len(t) * len(rows))
        compare(x, value(f, v), want, "value", "%s (application %d)" % (v, k + 1))
        x.same(list(f.data2D.data_name), [Forcing.Variable[v]], "names", "variables")
        x.check([pd.Timestamp(e) for e in f.data2D.time] == [pd.Timestamp(e) for e in t], "dates", "dates %s", list(f.data2D.time))
    if v == "P" and not np.isnan(want).any():
        a = np.array([r[1] for r in rows])
        x.close(f.get_total_precipitation(), float((want.sum(axis=0) * a).sum() / a.sum()), 1e-9, "total", "total precipitation")
    x.state(v, meth, np.round(np.nansum(want), 6))


def run_thr(arg, x):
    g1, g2, ref, thr = arg.split(".")
    d, rows, t, ref, thr = x.dir(), UNITS["4"], dates("s"), float(ref), float(thr)
    data = [STATION[(k * 5) % 7] for k in range(len(t))]
    hu = load_units(d, rows)
    order = [int(i) for i in hu.hydro_units[("id", "-")].values]
    rows = sorted(rows, key=lambda r: order.index(r[0]))
    f = Forcing(hu)
    f.load_station_data_from_csv(table(os.path.join(d, "s.csv"), t, {"p": data}), "when", "%Y-%m-%d", {"p": "p"})
    f.spatialize_from_station_data("p", METHOD["h"], ref_elevation=ref, gradient=GRAD[g1], gradient_2=GRAD[g2],
                                   elevation_threshold=thr)
    f.apply_operations()
    x.step(len(t) * len(rows))
    want = expected("P", data, t, rows, [], METHOD["h"], GRAD[g1], GRAD[g2], ref, thr)
    compare(x, value(f, "P"), want, "value", "P")
    x.state(np.round(np.nansum(want), 6))


def run_refuse(arg, x):
    d, rows, t = x.dir(), UNITS["4"], dates("y")

    def new(names=("p", "t")):
        f = Forcing(load_units(d, rows))
        f.load_station_data_from_csv(table(os.path.join(d, "s.csv"), t, {"p": STATION[:5], "t": STATION[1:6]}), "when",
                                     "%Y-%m-%d", {n: n for n in names})
        return f

    def no(what, fn, *kinds):
        x.step()
        x.check(refused(fn, *kinds) is not None, "accepted", "%s was accepted", what)

    f = new()
    if arg == "0":
        for bad in ("", "precipitations", "Temperature", "pp", "id", "P ", "tmean"):
            no("variable %r" % bad, lambda: f.correct_station_data(bad, correction_factor=1))
            no("variable %r" % bad, lambda: f.spatialize_from_station_data(bad, "constant"))
            no("variable %r" % bad, lambda: f.spatialize_from_gridded_data(bad))
            no("variable %r" % bad, lambda: f.get_variable_enum(bad))
            no("variable %r" % bad, lambda: Forcing(load_units(d, rows)).load_station_data_from_csv(
                os.path.join(d, "s.csv"), "when", "%Y-%m-%d", {bad: "p"}))
    elif arg == "1":
        for bad in ("", "mult", "Additive", "constant", "gradient", "param:p", "default "):
            no("method %r" % bad, lambda: f.correct_station_data("p", bad, 1.0))
            if bad not in ("constant",):
                no("method %r" % bad, lambda: f.spatialize_from_station_data("p", bad))
            no("method %r" % bad, lambda: f.spatialize_from_gridded_data("p", bad))
        no("no correction factor", lambda: f.correct_station_data("p"))
        x.same(len(f._operations), 0, "kept", "operations kept after refusals")
    elif arg == "2":
        for meth in "amh":
            for miss in ("ref_elevation", "gradient") + (("gradient_2", "elevation_threshold") if meth == "h" else ()):
                kw = dict(ref_elevation=1000, gradient=0.1, gradient_2=0.1, elevation_threshold=1200)
                del kw[miss]
                f = new()
                f.spatialize_from_station_data("p", METHOD[meth], **kw)
                no("%s without %s" % (meth, miss), f.apply_operations)
    elif arg == "3":
        for meth in "amh":
            for bad in ([0.1] * 2, [0.1] * 11, [0.1] * 13, [], "0.1", {"a": 1}):
                for key in ("gradient", "gradient_2") if meth == "h" else ("gradient",):
                    kw = dict(ref_elevation=1000, gradient=0.1, gradient_2=0.1, elevation_threshold=1200)
                    kw[key] = bad
                    f = new()
                    f.spatialize_from_station_data("p", METHOD[meth], **kw)
                    no("%s with %s=%r" % (meth, key, bad), f.apply_operations)
    elif arg == "4":
        f.correct_station_data("p", correction_factor="param:k")
        no("a parameter without parameter set", f.apply_operations)
        ps = hb.ParameterSet()
        ps.add_data_parameter("other", 1.0)
        no("an unknown parameter", lambda: f.apply_operations(ps))
        f = new(("p",))
        f.spatialize_from_station_data("t", "constant")
        no("a variable that was not loaded", f.apply_operations)
        f = new(("p",))
        f.correct_station_data("t", correction_factor=1.0)
        no("a variable that was not loaded", f.apply_operations)
        no("a column that is not in the file", lambda: new(("p", "wind")))
        no("a missing file", lambda: f.load_station_data_from_csv(os.path.join(d, "no.csv"), "when", "%Y-%m-%d", {"p": "p"}), OSError)
    else:
        no("no units", lambda: Forcing(hb.HydroUnits()))
        no("a wrong entity", lambda: Forcing("units"))
        no("a wrong entity", lambda: Forcing(None))


# ------------------------------------------------------------------------------ sequences of definitions and applications
def run_seq(word, x):
    d, rows, t = x.dir(), UNITS["4"], dates("y")
    hu = load_units(d, rows)
    order = [int(i) for i in hu.hydro_units[("id", "-")].values]
    rows = sorted(rows, key=lambda r: order.index(r[0]))
    P, T = [3.0, 0.0, 12.5, 40.0, 1.0], [-4.0, 3.5, 0.0, 11.0, -1.0]
    f = Forcing(hu)
    f.load_station_data_from_csv(table(os.path.join(d, "s.csv"), t, {"p": P, "t": T}), "when", "%Y-%m-%d", {"p": "p", "temperature": "t"})
    ps = hb.ParameterSet()
    ps.add_data_parameter("pc", 1.2, 0.1, 5)
    ps.add_data_parameter("pg", 0.05, -1, 1)
    ps.add_data_parameter("tg", -0.6, -2, 2)
    ps.add_data_parameter("tc", 0.5, -5, 5)
    now = {"pc": 1.2, "pg": 0.05, "tg": -0.6, "tc": 0.5}
    # the operations: the gradients from the start
    ops = {"P": [], "T": []}
    f.spatialize_from_station_data("P", ref_elevation=1000, gradient="param:pg")
    f.spatialize_from_station_data("t", ref_elevation=1000, gradient="param:tg")
    uses = {"P": {"pg"}, "T": {"tg"}}
    seen = {"P": None, "T": None}                     # what was applied last
    allowed, ready = [], False

    def table_of(v):
        return expected(v, P if v == "P" else T, t, rows, [(m, now[q] if isinstance(q, str) else q) for m, q in ops[v]],
                        "default", now["pg" if v == "P" else "tg"], ref=1000)

    for w in word:
        x.step()
        if w in "ab":                                 # corrections taken from parameters, under names of the variable
            n, m, q = {"a": ("precip", "multiplicative", "pc"), "b": ("T", "additive", "tc")}[w]
            f.correct_station_data(n, m, "param:" + q)
            v = "P" if w == "a" else "T"
            ops[v].append((m, q))
            uses[v].add(q)
        elif w in "Ac":
            v = "P" if w == "A" else "T"
            f.correct_station_data(v, "additive", 1.5)
            ops[v].append(("additive", 1.5))
        elif w == "d":                                # list of changing parameters
            allowed = [] if allowed else ["pc"]
            ps.allow_changing = list(allowed)
        elif w == "I":
            allowed = ["pg"]
            ps.allow_changing = list(allowed)
        elif w == "J":
            allowed = ["tg", "tc"]
            ps.allow_changing = list(allowed)
        elif w == "H":
            now["pc"] = 0.7 if now["pc"] == 1.2 else 1.2
            ps.set_values({"pc": now["pc"]})
        elif w == "K":
            now["pg"] = -0.2 if now["pg"] == 0.05 else 0.05
            ps.set_values({"pg": now["pg"]})
        elif w == "L":
            now["tg"], now["tc"] = (-0.3, -2.0) if now["tg"] == -0.6 else (-0.6, 0.5)
            ps.set_values({"tg": now["tg"], "tc": now["tc"]})
        elif w == "h":
            f.load_station_data_from_csv(os.path.join(d, "s.csv"), "when", "%Y-%m-%d", {"pet": "p"})
        elif w in "gG":
            f.apply_operations(ps, apply_to_all=w == "g")
            for v in ("P", "T"):
                if w == "g" or uses[v] & set(allowed):
                    seen[v] = table_of(v)
        elif w == "S":
            if not f.data2D.data_name:
                continue
            path = os.path.join(d, "f.nc")
            f.save_as(path)
            g = Forcing(hu)
            g.load_from(path)
            x.same([str(n) for n in g.data2D.data_name], [str(n) for n in f.data2D.data_name], "file", "variables in the file")
            for v in ("P", "T"):
                if seen[v] is not None:
                    x.close(np.array(value(g, v)), seen[v], 1e-6, "file", v + " in the file")
        for v in ("P", "T"):
            here = Forcing.Variable[v] in f.data2D.data_name
            x.same(here, seen[v] is not None, "present", "%s is there after %s" % (v, w))
            if here:
                compare(x, value(f, v), seen[v], "value", "%s after %s" % (v, w))
        ready = ready or w in "gG"
        x.same(f.is_initialized(), ready, "ready", "initialized after " + w)
        x.state(*(np.round(s.sum(), 6) if s is not None else 0 for s in seen.values()), sorted(now.items()), tuple(allowed))


# ------------------------------------------------------------------------------------------------------- netCDF files
def run_file(arg, x):
    step, n, start, comp, vs = arg.split(".")
    step, n, vs = int(step), int(n), vs.split(",")
    d, rows = x.dir(), UNITS["4"]
    t0 = datetime.datetime.strptime(start, "%Y-%m-%d_%H:%M")
    t = [t0 + datetime.timedelta(hours=step * k) for k in range(n)]
    cols = {v: [STATION[(k * (j + 2)) % 7] + 0.123456 * k for k in range(n)] for j, v in enumerate(vs)}
    f = Forcing(load_units(d, rows))
    f.load_station_data_from_csv(table(os.path.join(d, "s.csv"), t, cols, "%Y-%m-%d %H:%M"), "when", "%Y-%m-%d %H:%M", {v: v for v in vs})
    for v in vs:
        f.spatialize_from_station_data(v, METHOD["a"], ref_elevation=1000, gradient=-0.5)
    path = os.path.join(d, "f.nc")
    f.save_as(path, max_compression=comp == "1")     # applies the operations
    g = Forcing(load_units(d, rows))
    g.load_from(path)
    x.step(n * len(rows) * len(vs))
    x.check(g.is_initialized(), "ready", "a forcing loaded from a file is not initialized")
    x.same([str(e) for e in g.data2D.data_name], [str(e) for e in f.data2D.data_name], "names", "variables")
    x.check([pd.Timestamp(e) for e in g.data2D.time] == [pd.Timestamp(e) for e in t], "dates", "dates of the file: %s, expected %s",
            [str(e) for e in list(g.data2D.time)[:4]], [str(e) for e in t[:4]])
    for v in vs:
        a, b = np.array(value(g, v), dtype=float), np.array(value(f, v), dtype=float)
        x.check(a.shape == b.shape and np.all(np.abs(a - b) <= (1e-3 if comp == "1" else 1e-6 * np.maximum(1, np.abs(b)))), "value",
                "%s of the file differs by %g", v, np.max(np.abs(a - b)) if a.shape == b.shape else -1)
    if "P" in vs:
        x.close(g.get_total_precipitation(), f.get_total_precipitation(), 1e-3, "total", "total precipitation")
    for other in (UNITS["1"], rows[:3], rows[::-1], [(i + 1, a, z) for i, a, z in rows]):
        o = Forcing(load_units(d, other, "o"))
        if list(o.hydro_units[("id", "-")].values) != list(f.hydro_units[("id", "-")].values):
            x.check(refused(lambda: o.load_from(path)), "accepted", "a file for other units was accepted")
    x.state(step, n, vs)


# -------------------------------------------------------------------------------------------- several station files
def run_load(word, x):
    d, rows, t = x.dir(), UNITS["4"], dates("y")
    hu = load_units(d, rows)
    later = [e + datetime.timedelta(days=1) for e in t]
    F = {"p": (t, {"P": [1.0, 2.0, 3.0, 4.0, 5.0]}), "q": (t, {"P": [9.0, 8.0, 7.0, 6.0, 5.0]}), "t": (t, {"T": [0.5, -1.0, 2.0, 3.0, -7.0]}),
         "b": (later, {"P": [11.0, 12.0, 13.0, 14.0, 15.0], "T": [1.0, 1.5, 2.0, 2.5, 3.0]}), "r": (later, {"T": [4.0, 5.0, 6.0, 7.0, 8.0]})}
    f = Forcing(hu)
    have, spat, done = {}, [], {}
    for w in word:
        x.step()
        if w in F:
            tt, cols = F[w]
            path = table(os.path.join(d, w + ".csv"), tt, cols)
            e = refused(lambda: f.load_station_data_from_csv(path, "when", "%Y-%m-%d", {v: v for v in cols}))
            # all the data of a station have the same dates
            if any(tt != ht for v, (ht, _) in have.items() if v not in cols):
                x.check(e, "accepted", "file %s with other dates than the data already loaded was accepted", w)
            else:
                x.check(e is None, "refused", "file %s was refused: %s", w, e)
                have.update({v: (tt, c) for v, c in cols.items()})
        elif w == "s":
            for v in have:
                if v not in spat:
                    spat.append(v)
                    f.spatialize_from_station_data(v, "constant")
        elif w == "g":
            f.apply_operations()
            done = {v: have[v] for v in spat}
        x.same(sorted(str(e) for e in f.data1D.data_name), sorted(str(Forcing.Variable[v]) for v in have), "names", "station variables")
        for v, (tt, c) in have.items():
            x.close(np.array(f.data1D.data[f.data1D.data_name.index(Forcing.Variable[v])], dtype=float), c, 0, "station", "station " + v)
        for v, (tt, c) in done.items():
            compare(x, value(f, v), np.array([[e] * 4 for e in c]), "value", v)
            x.check([pd.Timestamp(e) for e in f.data2D.time] == [pd.Timestamp(e) for e in tt], "dates", "dates of the units' data after %s", w)
    x.state(sorted(have), sorted(done))


# ----------------------------------------------------------------------------------------- potential evapotranspiration
LAT = {3: 46.5, 1: 46.25, 9: 47.0, 4: 45.75}


def located(d, rows):
    path = os.path.join(d, "located.csv")
    with open(path, "w") as f:
        f.write("id,area,elevation,latitude\n-,m2,m,degrees\n" + "".join("%d,%g,%g,%g\n" % (r + (LAT[r[0]],)) for r in rows))
    hu = hb.HydroUnits()
    hu.load_from_csv(path, column_elevation="elevation", column_area="area", other_columns={"latitude": "latitude"})
    order = [int(i) for i in hu.hydro_units[("id", "-")].values]
    return hu, sorted(rows, key=lambda r: order.index(r[0]))


def pet_of(fn, rows, series, lat, elevation, extra):
    """What the function of pyet returns for each unit when it is given what it should be given."""
    import pyet
    out = []
    for k, r in enumerate(rows):
        kw = dict(extra, **{PYET[v]: a[:, k] for v, a in series.items()})
        if lat is not None:
            kw["lat"] = (LAT[r[0]] if lat == "unit" else lat) * np.pi / 180
        if elevation:
            kw["elevation"] = float(r[2])
        out.append(np.broadcast_to(getattr(pyet, fn)(**kw), len(a) if (a := next(iter(series.values()))) is not None else 0))
    return np.array(out).T


def run_pet(arg, x):
    name, use, lat = arg.split("/")
    use = use.split(".")
    d, t = x.dir(), dates("y")
    hu, rows = located(d, UNITS["4"])
    f = Forcing(hu)
    vs = list(PYET)
    data = {v: [STATION[(k * 3 + j) % 7] + j for k in range(len(t))] for j, v in enumerate(vs)}
    f.load_station_data_from_csv(table(os.path.join(d, "s.csv"), t, data), "when", "%Y-%m-%d", {v: v for v in vs})
    for v in vs:
        f.spatialize_from_station_data(v, METHOD["a"], ref_elevation=1000, gradient=0.1)
    given = list(use)
    extra = {"albedo": 0.3} if len(use) % 2 else {}
    kw = dict(extra, **({} if lat == "unit" else {lat: 46.0}))
    if "tmean" in use:                               # not a name of a variable
        f.compute_pet(name, use, **kw)
        x.check(refused(f.apply_operations), "accepted", "an unknown variable was accepted for the PET")
        return
    f.compute_pet(name, use, **kw)
    for k in range(2):
        f.apply_operations()
        x.step(len(t) * len(rows))
        wanted = [v for v, names in ALL.items() if any(u in names for u in use)]
        series = {v: np.array(value(f, v)) for v in wanted}
        want = pet_of(PET[name], rows, series, (None if not {"lat", "latitude"} & set(use) else "unit" if lat == "unit" else 46.0),
                      "elevation" in use, extra)
        x.close(np.array(value(f, "PET")), want, 1e-9, "pet", "PET from %s" % name)
        x.same(list(f.data2D.data_name), [Forcing.Variable[v] for v in vs + ["PET"]], "names", "variables")
    x.same(use, given, "mutated", "the caller's list")
    for bad in ("penmann", "", "Pm", "default"):
        x.check(refused(lambda: f.compute_pet(bad, use)), "accepted", "PET method %r was accepted", bad)
    g = Forcing(hu)
    g.load_station_data_from_csv(os.path.join(d, "s.csv"), "when", "%Y-%m-%d", {"wind": "WIND"})
    g.spatialize_from_station_data("wind", "constant")
    g.compute_pet(name, ["t"] + use)
    x.check(refused(g.apply_operations), "accepted", "a variable that is not available was accepted for the PET")


def run_petseq(word, x):
    d, t = x.dir(), dates("y")
    hu, rows = located(d, UNITS["4"])
    f = Forcing(hu)
    T, W = [-4.0, 3.5, 0.0, 11.0, -1.0], [1.0, 2.0, 3.0, 0.0, 5.0]
    f.load_station_data_from_csv(table(os.path.join(d, "s.csv"), t, {"t": T, "w": W}), "when", "%Y-%m-%d", {"temperature": "t", "wind": "w"})
    ps = hb.ParameterSet()
    ps.add_data_parameter("tg", -0.6, -2, 2)
    ps.add_data_parameter("wc", 1.0, 0, 2)
    now, allowed, seen = {"tg": -0.6, "wc": 1.0}, [], {}
    f.spatialize_from_station_data("t", ref_elevation=1000, gradient="param:tg")
    f.spatialize_from_station_data("wind", "constant")
    f.correct_station_data("wind", correction_factor="param:wc")
    f.compute_pet("Oudin", use=["t", "lat"])
    for w in word:
        x.step()
        if w == "t":
            now["tg"] = 0.3 if now["tg"] == -0.6 else -0.6
            ps.set_values({"tg": now["tg"]})
        elif w == "u":
            now["wc"] = 0.5 if now["wc"] == 1.0 else 1.0
            ps.set_values({"wc": now["wc"]})
        elif w in "aAI":
            allowed = {"a": ["tg"], "A": ["wc"], "I": ["WC", "TG"]}[w]
            ps.allow_changing = list(allowed)
        elif w in "gG":
            if w == "G" and "T" not in seen and "tg" not in [a.lower() for a in allowed]:
                continue                             # nothing was computed yet
            f.apply_operations(ps, apply_to_all=w == "g")
            ch = [a.lower() for a in allowed]
            if w == "g" or "tg" in ch:
                seen["T"] = expected("T", T, t, rows, [], METHOD["a"], now["tg"], ref=1000)
                seen["PET"] = pet_of("oudin", rows, {"T": seen["T"]}, "unit", False, {})
            if w == "g" or "wc" in ch:
                seen["WIND"] = expected("WIND", W, t, rows, [("multiplicative", now["wc"])], METHOD["c"])
        x.same(sorted(str(n) for n in f.data2D.data_name), sorted(str(Forcing.Variable[v]) for v in seen), "names", "variables after " + w)
        for v, a in seen.items():
            x.close(np.array(value(f, v)), a, 1e-9, "value", "%s after %s" % (v, w))
    x.state(sorted(now.items()), allowed, sorted(seen))


# ----------------------------------------------------------------------------------------------- what the model receives
def run_model(word, x):
    """A catchment whose runoff is its rain: the discharge tells the rain each unit got."""
    d = x.dir()
    hu, rows = catchment(d, ["open"], ["open"], lateral=False)
    P = {"a": 10.0, "b": 0.0, "c": 33.3}
    t = [datetime.datetime(2000, 7, 1) + datetime.timedelta(days=k) for k in range(len(word) + 1)]
    p = [P[w] for w in word] + [5.0]
    f = Forcing(hu)
    f.load_station_data_from_csv(table(os.path.join(d, "s.csv"), t, {"P": p, "T": [20.0 + k for k in range(len(p))], "PET": [0.0] * len(p)}),
                                 "when", "%Y-%m-%d", {"p": "P", "t": "T", "pet": "PET"})
    f.correct_station_data("p", correction_factor="param:pc")
    f.spatialize_from_station_data("p", ref_elevation=1000, gradient="param:pg")
    f.spatialize_from_station_data("t", ref_elevation=1000, gradient=-0.5)
    f.spatialize_from_station_data("pet")
    m = models.Socont(land_cover_names=["open"], land_cover_types=["open"], record_all=True)
    ps = fill(m.generate_parameters())
    ps.add_data_parameter("pc", 1.0, 0, 3)
    ps.add_data_parameter("pg", 0.0, -1, 1)
    m.setup(hu, d, "2000-07-01", str(t[-1].date()))
    total = sum(r[1] for r in rows)
    for pc, pg in ((1.0, 0.0), (1.5, 0.05), (0.8, -0.03)):
        ps.set_values({"pc": pc, "pg": pg})
        f.apply_operations(ps)
        m.run(ps, f)
        x.step(len(t) * len(rows))
        want = sum(max(0, e * pc * (1 + pg * (r[2] - 1000) / 100)) * r[1] for e in p for r in rows) / total
        x.close(f.get_total_precipitation(), want, 1e-9, "total", "total precipitation")
        got = m.get_total_outlet_discharge() + m.get_total_et() + m.get_total_water_storage_changes() + m.get_total_snow_storage_changes()
        x.close(got, want, 1e-6, "balance", "water that entered the model")
        x.state(pc, pg, round(want, 6))
