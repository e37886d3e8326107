"""Shared by the Python-level properties: model configurations, and small catchments to run them on."""
import itertools
import os

import numpy as np

import hydrobricks as hb
import hydrobricks.models as models

COVERS = {
    "o": (["open"], ["open"]),
    "n": (["meadow"], ["ground"]),
    "og": (["open", "glacier"], ["open", "glacier"]),
    "gog": (["ice", "open", "debris"], ["glacier", "open", "glacier"]),
    "of": (["open", "forest"], ["open", "forest"]),
    "f": (["wood"], ["forest"]),
    "ol": (["open", "lake"], ["open", "lake"]),
    "ofgl": (["open", "forest", "glacier", "lake"], ["open", "forest", "glacier", "lake"]),
    "lgfo": (["pond", "ice", "wood", "soil"], ["lake", "glacier", "forest", "open"]),
    "oofggl": (["a", "b", "c", "d", "e", "l"], ["open", "ground", "forest", "glacier", "glacier", "lake"]),
}
MELT = {"dd": "melt:degree_day", "asp": "melt:degree_day_aspect", "ti": "melt:temperature_index",
        "cn": "melt:cemaneige", "-": None}
ICE = {"-": None, "c": "transform:snow_ice_constant", "s": "transform:snow_ice_swat"}
SLIDE = {"-": None, "s": "transport:snow_slide", "f": "transport:snow_redistribution_frey",
         "d": "transport:snow_redistribution_frey_dynamic"}
SUBL = {"-": None, "c": "sublimation:constant", "p": "sublimation:pet"}
SPLIT = {"-": None, "l": "snow_rain:linear", "t": "snow_rain:threshold", "c": "snow_rain:cemaneige"}
SOLVERS = ["crank_nicolson", "heun_explicit", "euler_explicit", "runge_kutta", "euler_implicit", "exponential_euler"]


def socont_cases(full):
    for soil, sr, melt, ice, slide, subl, inf, cov in itertools.product(
            "12", "rl", ("dd", "asp", "ti") if full else ("dd", "ti", "asp"), "-cs", "-s", "-cp", "10",
            ("o", "og", "gog") + (("n",) if full else ())):
        if ice != "-" and "g" not in cov:
            continue
        if inf == "0" and "g" not in cov:
            continue
        yield "socont/%s.%s.%s.%s.%s.%s.%s.%s" % (soil, sr, melt, ice, slide, subl, inf, cov)


def hbv_cases(full):
    for melt, ret, rts, spl, slide, subl, share, can, inf, cov in itertools.product(
            ("dd", "asp", "ti"), "-hr", "01", "-lt", "-s", "-cp" if full else "-p", "01", "01", "10",
            ("o", "of", "f", "og", "ol", "ofgl", "lgfo") + (("oofggl", "gog", "n") if full else ())):
        # retention: none, holding, holding and refreezing
        if ret == "-" and rts == "1" or ret == "r" and melt != "dd":
            continue
        multi = sum(t in ("open", "ground", "forest") for t in COVERS[cov][1]) > 1
        if share == "1" and not multi or can == "1" and "f" not in cov:
            continue
        if inf == "0" and "g" not in cov:
            continue
        if not full and sum((ret != "r", rts != "1", spl != "-", slide != "-", subl != "-", share != "0", can != "0",
                             inf != "1", melt != "dd")) > 3:
            continue
        yield "hbv96/%s.%s.%s.%s.%s.%s.%s.%s.%s.%s" % (melt, ret, rts, spl, slide, subl, share, can, inf, cov)


def gr_cases(full):
    for m, disc, melt, spl, slide, subl, cov in itertools.product(
            ("gr4j", "gr6j"), "10", ("-", "dd", "asp", "ti", "cn"), "-lt", "-s", "-cp", ("o", "n")):
        if melt == "-" and (spl != "-" or slide != "-" or subl != "-"):
            continue
        yield "%s/%s.%s.%s.%s.%s.%s" % (m, disc, melt, spl, slide, subl, cov)


def rule_cases():
    """The other rules of snow redistribution and of the split of precipitation, with the options they meet."""
    for melt, ice, slide, inf, cov in itertools.product(("dd", "ti"), "-cs", "fd", "10", ("o", "og", "gog")):
        if "g" in cov or ice == "-" and inf == "1":
            yield "socont/1.l.%s.%s.%s.-.%s.%s" % (melt, ice, slide, inf, cov)
    for melt, ret, spl, slide, share, can, cov in itertools.product(("dd", "asp"), "-hr", "-tc", "-sfd", "01", "01",
                                                                    ("o", "og", "ol", "ofgl", "oofggl")):
        if not (slide in "fd" or spl == "c") or ret == "r" and melt != "dd" or sum((melt == "asp", ret != "-", spl == "t", share == "1", can == "1")) > 1:
            continue
        if share == "1" and "f" not in cov or can == "1" and "f" not in cov:
            continue
        yield "hbv96/%s.%s.%d.%s.%s.-.%s.%s.1.%s" % (melt, ret, ret != "-", spl, slide, share, can, cov)
    for m, disc, melt, spl, slide, subl in itertools.product(("gr4j", "gr6j"), "10", ("dd", "asp", "ti", "cn"), "-ltc", "-fd", "-p"):
        if (spl == "c") + (slide != "-") + (subl != "-") == (2 if subl == "p" else 1):
            yield "%s/%s.%s.%s.%s.%s.o" % (m, disc, melt, spl, slide, subl)


def parse(case):
    """(class, keyword options, cover names, cover types)"""
    m, spec = case.split("/")[:2]
    v = spec.split(".")
    names, types = (list(t) for t in COVERS[v[-1]])
    if m == "socont":
        o = dict(soil_storage_nb=int(v[0]), surface_runoff={"r": "socont_runoff", "l": "linear_storage"}[v[1]],
                 snow_melt_process=MELT[v[2]], snow_ice_transformation=ICE[v[3]], snow_redistribution=SLIDE[v[4]],
                 snow_sublimation_process=SUBL[v[5]], glacier_infinite_storage=v[6] == "1")
        return models.Socont, o, names, types
    if m == "hbv96":
        o = dict(snow_melt_process=MELT[v[0]],
                 snow_water_retention_process=None if v[1] == "-" else "outflow:snow_holding",
                 snow_refreezing_process="refreeze:degree_day" if v[1] == "r" else None, rain_to_snowpack=v[2] == "1",
                 snow_rain_process=SPLIT[v[3]], snow_redistribution=SLIDE[v[4]], snow_sublimation_process=SUBL[v[5]],
                 share_soil=v[6] == "1", forest_interception=v[7] == "1", glacier_infinite_storage=v[8] == "1")
        return models.HBV96, o, names, types
    o = dict(discrete=v[0] == "1", snow_melt_process=MELT[v[1]], snow_rain_process=SPLIT[v[2]],
             snow_redistribution=SLIDE[v[3]], snow_sublimation_process=SUBL[v[4]])
    return (models.GR4J if m == "gr4j" else models.GR6J), o, names, types


def refused(f, *kinds):
    """The exception f raises when it refuses (the package's own errors, or the listed ones); None if it accepts."""
    try:
        f()
    except hb.HydroBricksError as e:
        return e
    except (ValueError, TypeError, RuntimeError, KeyError) + tuple(kinds) as e:
        return e
    return None


# ---------------------------------------------------------------------------------------------- small catchments
# (date of the day types) precipitation, temperature, tmin, tmax, pet, radiation
DAYS = [(0.0, -6.0, -11.0, -1.0, 0.1, 3.0), (14.0, -3.0, -6.0, 0.5, 0.2, 2.0), (8.0, 1.0, -2.0, 4.0, 0.8, 4.0),
        (45.0, 7.0, 4.0, 10.0, 1.0, 3.0), (0.0, 16.0, 8.0, 24.0, 4.5, 18.0), (2.5, 9.0, 5.0, 13.0, 2.0, 9.0)]
COLS = ["precipitation", "temperature", "temperature_min", "temperature_max", "pet", "solar_radiation"]


def de_bruijn(k, n):
    """A cyclic word over k letters that contains every word of n letters once."""
    a, seq = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return seq


def unit_rows(names, types):
    """Units (id, area, elevation, slope, aspect class, {cover: area}) that together have every cover alone and mixed."""
    soil = [n for n, t in zip(names, types) if t not in ("glacier", "lake")]
    ice = [n for n, t in zip(names, types) if t == "glacier"]
    lakes = [n for n, t in zip(names, types) if t == "lake"]
    mixes = [{n: 1.0} for n in soil + lakes]
    if len(soil) > 1:
        mixes.append({n: k + 1.0 for k, n in enumerate(soil)})
    if ice:
        mixes.append({n: k + 1.0 for k, n in enumerate(ice + soil)})
        mixes.append({n: 2.0 for n in ice})
    if len(lakes) > 1:
        mixes.append({n: k + 1.0 for k, n in enumerate(lakes)})
    if len(mixes) < 3:
        mixes += [mixes[0]] * (3 - len(mixes))
    rows = []
    for k, m in enumerate(mixes):
        area = 4e5 + 1.5e5 * ((k * 5) % 7)
        tot = sum(m.values())
        rows.append((k + 1, area, 650 + 270 * ((k * 4 + 2) % 9), (12, 40, 25, 55, 8, 33, 61)[k % 7],
                     "NSEW"[k % 4], {n: area * m.get(n, 0.0) / tot for n in names}))
    return rows


def write_units(path, rows, names):
    with open(path, "w") as f:
        f.write("id,elevation,slope,aspect_class," + ",".join("area_" + n for n in names) + "\n")
        f.write("-,m,degrees,-," + ",".join("m2" for n in names) + "\n")
        for i, area, z, s, asp, ar in rows:
            f.write("%d,%g,%g,%s," % (i, z, s, asp) + ",".join("%.6f" % ar[n] for n in names) + "\n")


def catchment(d, names, types, lateral=True):
    rows = unit_rows(names, types)
    path = os.path.join(d, "units.csv")
    write_units(path, rows, names)
    hu = hb.HydroUnits(list(types), list(names))
    hu.load_from_csv(path, column_elevation="elevation", columns_areas={n: "area_" + n for n in names},
                     other_columns={"slope": "slope", "aspect_class": "aspect_class"})
    if lateral:
        import pandas as pd
        order = sorted(rows, key=lambda r: -r[2])
        con = []
        for k, r in enumerate(order):
            below = [q[0] for q in order[k + 1:k + 3]]
            con.append((r[0], {b: (0.75, 0.25)[j] if len(below) == 2 else 1.0 for j, b in enumerate(below)}))
        hu.set_connectivity(pd.DataFrame({"id": [c[0] for c in con], "connectivity": [c[1] for c in con]}))
    return hu, rows


def write_weather(path, word, start="2000-01-01"):
    import datetime
    t = datetime.date.fromisoformat(start)
    with open(path, "w") as f:
        f.write("date," + ",".join(COLS) + "\n")
        for k, w in enumerate(word):
            f.write((t + datetime.timedelta(days=k)).isoformat() + "," + ",".join("%g" % v for v in DAYS[w]) + "\n")
    return (t + datetime.timedelta(days=len(word) - 1)).isoformat()


def weather(d, hu, word, needs=("precipitation", "temperature", "pet"), start="2000-01-01", pgrad=0.05, tgrad=-0.6, name="w"):
    path = os.path.join(d, name + ".csv")
    end = write_weather(path, word, start)
    f = hb.Forcing(hu)
    f.load_station_data_from_csv(path, column_time="date", time_format="%Y-%m-%d", content={n: n for n in needs})
    for n in needs:
        if n == "precipitation":
            f.spatialize_from_station_data(variable=n, ref_elevation=1200, gradient=pgrad)
        elif n.startswith("temperature"):
            f.spatialize_from_station_data(variable=n, method="additive_elevation_gradient", ref_elevation=1200, gradient=tgrad)
        else:
            f.spatialize_from_station_data(variable=n, method="constant")
    return f, end


def needed(o):
    n = ["precipitation", "temperature", "pet"]
    if o.get("snow_melt_process") == "melt:temperature_index":
        n.append("solar_radiation")
    if o.get("snow_rain_process", None) == "snow_rain:cemaneige" or (
            o.get("snow_melt_process") == "melt:cemaneige" and not o.get("snow_rain_process")):
        n += ["temperature_min", "temperature_max"]
    return n


# values well inside the ranges that make every process active; (name of the parameter -> value)
VALUES = {"degree_day_factor": 4.0, "degree_day_factor_n": 3.0, "degree_day_factor_s": 5.0, "degree_day_factor_ew": 4.0,
          "melt_factor": 2.0, "radiation_coefficient": 0.05, "response_factor": 0.15, "capacity": 40.0, "beta": 2.5, "lp": 0.7,
          "alpha": 0.6, "maxbas": 2.6, "percolation_rate": 1.2, "mean_annual_snow": 60.0, "exchange_factor": 0.0,
          "routing_capacity": 50.0, "uh_base_time": 1.7, "exchange_threshold": 0.0, "exp_store_coeff": 4.0,
          "min_snow_holding_depth": 10.0, "coeff": 200.0, "snow_ice_transformation_rate": 0.5, "max_capillary_flux": 0.6,
          "cold_content_factor": 0.4}


def fill(ps):
    """Give every parameter without a value one; ice melts faster than snow."""
    for _, r in ps.parameters.iterrows():
        n, c = r["name"], r["component"]
        if n not in VALUES or c == "data":
            continue
        v = VALUES[n]
        if n == "beta" and r["max"] > 100:
            v = 500.0
        if c not in ("type:snowpack", "type:snowpack,type:glacier") and (n.startswith("degree_day") or n.startswith("radiation")):
            v *= 1.5
        if c == "lower_zone" and n == "response_factor":
            v = 0.05
        if c.startswith("slow_reservoir") and n == "response_factor":
            v = 0.03 if c.endswith("2") else 0.08
        if c.endswith("_canopy"):
            v = 2.0
        if r["component"] == "production_store":
            v = 120.0
        ps.set_values({c + ":" + n: v})
    return ps
