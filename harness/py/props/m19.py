"""M19: a model asks for exactly the parameters of the processes it is made of, under their published names.

For every combination of options and covers of the shipped models: the generated parameter set is the documented one (what it belongs
to, unit, range, default, needed or not, published names, orders between parameters, scale used by optimizers); every process of every
variant of the structure that the core is given has each of its parameters exactly once, and none is left that no process uses; every
published name, in any case, sets that parameter and no other; the set counts as complete exactly when every needed value is there, and as
ordered exactly when every documented order holds."""
import math

import hydrobricks as hb

from props.common import *
from props import common
from pyexplore import Fail

CASE_LIMIT = 60
common.COVERS.update({
    "D": (["open", "glacier_ice", "glacier_debris"], ["open", "glacier", "glacier"]),
    "H": (["top-soil", "clean-ice", "old-ice"], ["open", "glacier", "glacier"]),
    "2l": (["bog", "mere", "tarn"], ["open", "lake", "lake"]),
    "2f": (["bog", "oak", "fir"], ["open", "forest", "forest"]),
})

RF = ("response_factor", "1/d", 0.0001, 1, None, True)
TM = ("melting_temperature", "°C", 0, 5, 0, False)
DD = "mm/d/°C"


def table():
    """process kind -> [(name, unit, min, max, default, needed, published names)]; names "*" depend on where the process is."""
    t = {
        "outflow:linear": [RF + ((),)],
        "runoff:socont": [("beta", "m^(4/3)/s", 100, 30000, None, True, ("beta",))],
        "percolation:constant": [("percolation_rate", "mm/d", 0, 10, None, True, ("percol",))],
        "melt:degree_day": [("degree_day_factor", DD, 2, 20, None, True, "*"), TM + ("*",)],
        "melt:degree_day_aspect": [("degree_day_factor_" + a, DD, 1, 20, None, True, "*") for a in ("n", "s", "ew")] + [TM + ("*",)],
        "melt:cemaneige": [("degree_day_factor", DD, 1, 10, None, True, "*"), ("cold_content_factor", "-", 0, 1, 0, False, "*"),
                           TM + ("*",), ("mean_annual_snow", "mm", 0, 3000, None, True, "*")],
        "melt:temperature_index": [("melt_factor", DD, 0, 12, None, True, "*"),
                                   ("radiation_coefficient", "m2/W*mm/d/°C", 0, 1, None, True, "*"), TM + ("*",)],
        "sublimation:constant": [("sublimation_rate", "mm/d", 0, 2, 0.1, False, ("sublimation_rate",))],
        "sublimation:pet": [("sublimation_pet_factor", "-", 0, 1, 0.2, False, ("sublimation_pet_factor", "sublimation_factor"))],
        "transform:snow_ice_constant": [("snow_ice_transformation_rate", "mm/d", 0, 10, 0.5, True, "*")],
        "transform:snow_ice_swat": [("snow_ice_transformation_basal_acc_coeff", "-", 0.001, 0.006, 0.0014, False, "*"),
                                    ("north_hemisphere", "-", 0, 1, 1, False, "*")],
        "infiltration:hbv": [("beta", "-", 1, 6, 2, True, ("beta",))],
        "et:hbv": [("lp", "-", 0.3, 1, 0.9, True, ("lp",)),
                   ("et_correction_factor", "-", 0.5, 2, 1, False, ("et_correction_factor", "et_corr_factor", "cevpf", "etcf"))],
        "runoff:hbv": [("response_factor", "mm^(-alpha)/d", 0.0001, 1, None, True, ("k_uz",)),
                       ("alpha", "-", 0, 3, 1, True, ("alpha", "alfa"))],
        "capillary:hbv": [("max_capillary_flux", "mm/d", 0, 3, 0, False, ("cflux",))],
        "routing:hbv": [("maxbas", "d", 1, 10, 1, True, ("maxbas",))],
        "refreeze:degree_day": [("refreezing_factor", "-", 0, 0.1, 0.05, False, ("cfr",))],
        "outflow:snow_holding": [("water_holding_capacity", "-", 0, 0.2, 0.1, False, ("cwh", "whc"))],
        "routing:gr4j": [("exchange_factor", "mm/d", -10, 5, 0, True, ("X2",)), ("routing_capacity", "mm", 1, 500, 90, True, ("X3",)),
                         ("uh_base_time", "d", 0.51, 4, 1.7, True, ("X4",))],
    }
    t["routing:gr6j"] = t["routing:gr4j"] + [("exchange_threshold", "-", -2, 2, 0, True, ("X5",)),
                                             ("exp_store_coeff", "mm", 0.05, 20, 4, True, ("X6",))]
    s = "snow_slide_"
    t["transport:snow_slide"] = [
        ("coeff", "-", 0, 10000, 3178.4, False, (s + "coeff",)), ("exp", "-", -5, 0, -1.998, False, (s + "exp",)),
        ("min_slope", "°", 0, 45, 10, False, (s + "min_slope",)), ("max_slope", "°", 45, 90, 75, False, (s + "max_slope",)),
        ("min_snow_holding_depth", "mm", 0, 1000, 50, False, (s + "min_snow_depth",)),
        ("max_snow_depth", "mm", -1, 50000, 20000, False, (s + "max_snow_depth",))]
    for kind, s in (("frey", "snow_redist_frey_"), ("frey_dynamic", "snow_redist_frey_dyn_")):
        t["transport:snow_redistribution_" + kind] = [
            ("correction", "-", 0, 10, 1, False, (s + "c",)),
            ("snow_holding_capacity", "mm", 0, 5000, 200, False, (s + "holding_capacity",)),
            ("rho_max", "kg/m3", 200, 600, 450, False, (s + "rho_max",))] + ([
                ("snow_density", "kg/m3", 50, 600, 250, False, (s + "snow_density",))] if kind == "frey" else [
                ("rho_min", "kg/m3", 50, 300, 100, False, (s + "rho_min",)),
                ("rho_fresh_max", "kg/m3", 100, 500, 300, False, (s + "rho_fresh_max",)),
                ("rho_settling", "1/day", 0, 1, 0.1, False, (s + "rho_settling",)),
                ("rho_scale", "-", 0.1, 10, 1.2, False, (s + "rho_scale",)),
                ("t_scale", "°C", -5, 5, 1, False, (s + "t_scale",))]) + [
            ("max_snow_depth", "mm", -1, 50000, 20000, False, (s + "max_snow_depth",))]
    return t


T = table()
NONE = {"infiltration:socont", "outflow:rest", "outflow:direct", "et:socont", "et:open_water", "et:linear", "overflow", "outflow:threshold",
        "interception:gr4j", "infiltration:gr4j", "production:gr4j", "et:gr4j", "percolation:gr4j"}
SPLITTER = {"snow_rain:linear": [("transition_start", "°C", -2, 2, 0, False, ("prec_t_start",)),
                                 ("transition_end", "°C", 0, 4, 2, False, ("prec_t_end",))],
            "snow_rain:threshold": [("threshold", "°C", -5, 5, 0, False, ("prec_t",))], "snow_rain:cemaneige": []}
RAIN = ("rain_correction_factor", "-", 0.5, 2, 1, False, ("rain_correction_factor", "rain_corr_factor", "rfcf", "rcf"))
SNOW = ("snow_correction_factor", "-", 0.5, 2, 1, False, ("snow_correction_factor", "snow_corr_factor", "sfcf", "scf"))


def expected(m, o, names, types):
    """{(component, name): (unit, min, max, default, needed, {published names})}, as documented."""
    e = {}

    def put(comp, spec, al=None, suffix=""):
        n, unit, lo, hi, d, need, own = spec
        al = list(own if al is None else al)
        key = (comp, n)
        if key in e:
            raise RuntimeError("the table lists %s twice" % (key,))
        e[key] = (unit, lo, hi, d, need, {a + suffix for a in al})

    ices = [n for n, t in zip(names, types) if t == "glacier"]
    woods = [n for n, t in zip(names, types) if t == "forest"]
    lakes = [n for n, t in zip(names, types) if t == "lake"]
    soils = [n for n, t in zip(names, types) if t not in ("glacier", "lake")]
    melt = o["snow_melt_process"]

    def of_ice(stem, i):
        return [stem] if len(ices) == 1 else ["%s_%s" % (stem, ices[i].replace("-", "_")), "%s_%d" % (stem, i)]

    # precipitation
    if melt:
        k = o.get("snow_rain_process") or ("snow_rain:cemaneige" if melt == "melt:cemaneige" else "snow_rain:linear")
        for s in SPLITTER[k] + [RAIN, SNOW]:
            put("snow_rain_transition", s)
    else:
        put("rain", RAIN)
    # snow
    gr = m in ("gr4j", "gr6j")
    hbv = m == "hbv96"
    if melt:
        al = {"degree_day_factor": ["a_snow"], "melting_temperature": ["melt_t_snow"], "melt_factor": ["melt_factor", "mf"],
              "radiation_coefficient": ["r_snow"], "degree_day_factor_n": ["a_snow_n"], "degree_day_factor_s": ["a_snow_s"],
              "degree_day_factor_ew": ["a_snow_ew"]}
        if melt == "melt:cemaneige":
            al = {"degree_day_factor": ["Kf"], "cold_content_factor": ["CTG"], "melting_temperature": ["Tmelt"], "mean_annual_snow": ["Cn"]}
        elif gr:
            al["melting_temperature"] += ["Tmelt"]
            al["degree_day_factor"] += ["Kf"]
            al["melt_factor"] += ["a_snow", "Kf"]
            for a in ("n", "s", "ew"):
                al["degree_day_factor_" + a] += ["kf_" + a]
        elif hbv:
            al["melting_temperature"] += ["tt"]
            al["degree_day_factor"] += ["cfmax"]
        for s in T[melt]:
            put("type:snowpack,type:glacier" if s[0] == "melt_factor" else "type:snowpack", s, al[s[0]])
        for k in ("snow_water_retention_process", "snow_refreezing_process", "snow_sublimation_process"):
            for s in T.get(o.get(k), []):
                put("type:snowpack", s)
        for i, c in enumerate(ices):
            stem = {"snow_ice_transformation_rate": "snow_ice_rate", "north_hemisphere": "north_hemisphere",
                    "snow_ice_transformation_basal_acc_coeff": "snow_ice_basal_acc_coeff"}
            for s in T.get(o.get("snow_ice_transformation"), []):
                put(c + "_snowpack", s, of_ice(stem[s[0]], i))
        for s in T.get(o.get("snow_redistribution"), []):
            if s[0] == "snow_holding_capacity":
                held = [c for c in names if not (hbv and c in lakes)]  # no snow is kept on the lakes of HBV
                for c in held:
                    put(c + "_snowpack", s, suffix="_" + c if len(held) > 1 else "")
            else:
                put("type:snowpack", s)
    # ice
    for i, c in enumerate(ices):
        stem = {"degree_day_factor": "a_ice", "degree_day_factor_n": "a_ice_n", "degree_day_factor_s": "a_ice_s",
                "degree_day_factor_ew": "a_ice_ew", "radiation_coefficient": "r_ice", "melting_temperature": "melt_t_ice"}
        for s in T[melt]:
            if s[0] != "melt_factor":
                put(c, s, of_ice(stem[s[0]], i))
    if ices:
        put("glacier_area_rain_snowmelt_storage", RF + (("k_snow",),))
        put("glacier_area_icemelt_storage", RF + (("k_ice",),))
    cap = ("capacity", "mm", 0, 3000, None, True, ())
    if m == "socont":
        put("slow_reservoir", cap, ["A"])
        put("slow_reservoir", RF + (("k_slow", "k_slow_1", "k_slow1"),))
        if o["soil_storage_nb"] == 2:
            put("slow_reservoir", T["percolation:constant"][0])
            put("slow_reservoir_2", RF + (("k_slow_2", "k_slow2"),))
        if o["surface_runoff"] == "socont_runoff":
            put("surface_runoff", T["runoff:socont"][0])
        else:
            put("surface_runoff", RF + (("k_quick",),))
    if hbv:
        if o.get("forest_interception"):
            for c in woods:
                put(c + "_canopy", ("capacity", "mm", 0, 10, 2, False, ("ic",)), suffix="_" + c if len(woods) > 1 else "")
        many = len(soils) > 1
        shared = o.get("share_soil") or not many
        for c in soils:
            put(c, T["infiltration:hbv"][0], suffix="_" + c if many else "")
        for st, sf in [("soil_moisture", "")] if shared else [(c + "_soil_moisture", "_" + c) for c in soils]:
            put(st, cap, ["fc"], sf)
            for s in T["et:hbv"]:
                put(st, s, suffix=sf)
        put("upper_zone", T["capillary:hbv"][0])
        put("upper_zone", T["percolation:constant"][0], ["percol", "perc"])
        for s in T["runoff:hbv"]:
            put("upper_zone", s)
        put("lower_zone", RF + (("k_lz", "k4"),))
        put("routing", T["routing:hbv"][0])
        for c in lakes:
            put(c + "_storage", RF + (("k_lake",),), suffix="_" + c if len(lakes) > 1 else "")
    if gr:
        put("production_store", ("capacity", "mm", 1, 3000, None, True, ("X1",)))
        for s in T["routing:" + m]:
            put("uh_input", s)
    return e


def orders(m, o, names, types, e):
    """{(lower, op, upper)}, as parameters (component, name)."""
    c = set()
    ices = [n for n, t in zip(names, types) if t == "glacier"]
    melt = o["snow_melt_process"]
    if melt:
        c.add((("snow_rain_transition", "rain_correction_factor"), "<=", ("snow_rain_transition", "snow_correction_factor")))
    lead = {"melt:degree_day": ["degree_day_factor"], "melt:temperature_index": ["radiation_coefficient"],
            "melt:degree_day_aspect": ["degree_day_factor_" + a for a in ("n", "s", "ew")]}.get(melt, [])
    for g in ices:
        for p in lead:
            c.add((("type:snowpack", p), "<", (g, p)))
    if {"glacier_ice", "glacier_debris"} <= set(ices):
        for p in lead:
            c.add((("glacier_debris", p), "<", ("glacier_ice", p)))
    if m == "socont":
        k1, k2, kq = ("slow_reservoir", RF[0]), ("slow_reservoir_2", RF[0]), ("surface_runoff", RF[0])
        c |= {(a, "<", b) for a, b in ((k1, kq), (k2, kq), (k2, k1)) if a in e and b in e}
    if m == "hbv96":
        c.add((("lower_zone", RF[0]), "<", ("upper_zone", RF[0])))
    return c


def scales(m, e):
    """{parameter: (what the optimizer sees of a value, values to look at)}"""
    s = {}
    if m == "socont":
        for b in ("slow_reservoir", "slow_reservoir_2"):
            if (b, RF[0]) in e:
                s[(b, RF[0])] = (lambda v: math.log(v / 24.0), (0.0001, 0.013, 0.4, 1.0))
    if m in ("gr4j", "gr6j"):
        s[("production_store", "capacity")] = (math.log, (1.0, 35.0, 3000.0))
        s[("uh_input", "exchange_factor")] = (math.asinh, (-10.0, -0.4, 0.0, 2.5, 5.0))
        s[("uh_input", "routing_capacity")] = (math.log, (1.0, 35.0, 500.0))
        s[("uh_input", "uh_base_time")] = (lambda v: math.log(v - 0.5), (0.51, 1.7, 4.0))
    if m == "gr6j":
        s[("uh_input", "exchange_threshold")] = (math.asinh, (-2.0, 0.0, 0.7, 2.0))
        s[("uh_input", "exp_store_coeff")] = (math.log, (0.05, 1.0, 20.0))
    return s


def needed_by(variants, snow):
    """[(where, {components that may hold it}, name)] of the processes and splitters the core was given."""
    need = set()
    for v in variants:
        for lst in ("hydro_unit_bricks", "sub_basin_bricks"):
            for b in v[lst]:
                comps = {b["name"]}
                if b["kind"] == "snowpack":
                    comps |= {"type:snowpack", "type:snowpack,type:glacier"}
                if b["kind"] == "glacier":
                    comps |= {"type:snowpack,type:glacier"}
                for p in b["processes"]:
                    if p["kind"] in NONE:
                        continue
                    if p["kind"] not in T:
                        raise Fail("kind", "process %s of %s is not in the table" % (p["kind"], b["name"]))
                    need |= {(b["name"], frozenset(comps), s[0]) for s in T[p["kind"]]}
        for lst in ("hydro_unit_splitters", "sub_basin_splitters"):
            for s in v[lst]:
                if s["name"] == "snow_rain_transition":
                    for n in [q[0] for q in SPLITTER[s["kind"]]] + [RAIN[0], SNOW[0]]:
                        need.add((s["name"], frozenset([s["name"]]), n))
                elif s["name"] == "rain" and not snow:  # with snow, water surfaces take the rain as it is
                    need.add(("rain", frozenset(["rain"]), RAIN[0]))
    return need


def cases(tier):
    full = tier != "quick"
    for c in socont_cases(full):
        yield c
    for c in hbv_cases(full):
        yield c
    for c in gr_cases(full):
        yield c
    covers = ("o", "n", "og", "gog", "D", "H")
    for soil, sr, melt, ice, slide, subl, inf, cov in itertools.product(
            "12", "rl", ("dd", "asp", "ti"), "-cs", "-sfd", "-cp" if full else "-", "1", covers):
        c = "socont/%s.%s.%s.%s.%s.%s.%s.%s" % (soil, sr, melt, ice, slide, subl, inf, cov)
        if cov in "DH" and slide in "-s" or slide in "fd":
            if ice == "-" or "g" in cov or cov in "DH":
                yield c
    for melt, slide, spl, share, can, cov in itertools.product(("dd", "asp", "ti"), "sfd", "-ltc", "01", "01",
                                                               ("o", "og", "gog", "ofgl", "oofggl", "2l", "2f", "D", "H")):
        if slide == "s" and spl != "c" and cov not in ("2l", "2f", "D", "H"):
            continue
        types = COVERS[cov][1]
        if share == "1" and sum(t in ("open", "ground", "forest") for t in types) < 2 or can == "1" and "forest" not in types:
            continue
        ret = "r" if melt == "dd" else "h"
        yield "hbv96/%s.%s.1.%s.%s.-.%s.%s.1.%s" % (melt, ret, spl, slide, share, can, cov)
    for m, disc, melt, spl, slide, cov in itertools.product(("gr4j", "gr6j"), "10", ("dd", "asp", "ti", "cn"), "-ltc", "-fd", "on"):
        if spl == "c" or slide in "fd":
            yield "%s/%s.%s.%s.%s.-.%s" % (m, disc, melt, spl, slide, cov)


def same_number(a, b):
    return a is None and b is None or a is not None and b is not None and float(a) == float(b)


def number(v):
    return None if v is None or isinstance(v, float) and math.isnan(v) else v


SEEN = set()


def first(x, what):
    """Quick: what only depends on a row of the (fully compared) table is looked at the first time this row is met."""
    if x.tier == "quick" and what in SEEN:
        return False
    SEEN.add(what)
    return True


def run(case, x):
    cls, o, names, types = parse(case)
    m = case.split("/")[0]
    model = cls(land_cover_names=list(names), land_cover_types=list(types), **o)
    ps = model.generate_parameters()
    e = expected(m, dict(o), names, types)

    # ---- the rows
    rows = {}
    for _, r in ps.parameters.iterrows():
        k = (r["component"], r["name"])
        x.check(k not in rows, "twice", "%s:%s is there twice", *k)
        rows[k] = r
    x.same(sorted(rows), sorted(e), "rows", "the parameters")
    used = {}
    for k, (unit, lo, hi, d, need, al) in e.items():
        r = rows[k]
        what = "%s:%s" % k
        x.same(r["unit"], unit, "unit", "unit of " + what)
        x.check(same_number(r["min"], lo) and same_number(r["max"], hi), "range", "%s: range %s to %s, documented %s to %s",
                what, r["min"], r["max"], lo, hi)
        x.check(same_number(r["default"], d), "default", "%s: default %s, documented %s", what, r["default"], d)
        x.same(bool(r["mandatory"]), need, "needed", what + " needed")
        got = [a for a in (r["aliases"] or [])]
        x.same(sorted(got), sorted(al), "names", "published names of " + what)
        x.check(same_number(number(r["value"]), None if need else d), "start", "%s starts at %s", what, r["value"])
        for a in got:
            x.check(a.lower() not in used, "ambiguous", "%s names two parameters", a)
            used[a.lower()] = k

    # ---- the processes the core was given
    want = needed_by(model.settings.get_structure(), bool(o["snow_melt_process"]))
    taken = set()
    for where, comps, n in want:
        found = [k for k in rows if k[1] == n and k[0] in comps]
        x.check(len(found) == 1, "held", "%s of %s is held by %s", n, where, found)
        taken.add(found[0])
    for k in rows:
        x.check(k in taken or k[1] == "capacity", "unused", "%s:%s belongs to no process", *k)

    # ---- complete only when every needed value is there; each name sets its parameter and no other
    missing = [k for k in e if e[k][4]]
    for j, k in enumerate(missing):
        x.check(not ps.is_valid(), "incomplete", "the set counts as complete without %s", missing[j:])
        und = {u.lower() for u in ps.get_undefined()}
        x.check(any(n in und for n in [k[1].lower(), ("%s:%s" % k).lower()] + [a.lower() for a in e[k][5]]), "undefined",
                "%s is not among the undefined %s", k, und)
        lo, hi = e[k][1:3]
        ps.set_values({"%s:%s" % k: lo + (hi - lo) * (0.2 + 0.003 * j)})
    x.check(ps.is_valid(), "complete", "the set is not complete: %s", ps.get_undefined())
    keys = [(r["component"], r["name"]) for _, r in ps.parameters.iterrows()]
    before = dict(zip(keys, ps.parameters["value"].tolist()))
    calls = [("%s:%s" % k, k) for k in e] + [(f(a), k) for k in e for a in sorted(e[k][5]) for f in (str, str.upper)]
    for j, (a, k) in enumerate(calls):
        if not first(x, ("name", m, a, k)):
            continue
        lo, hi = e[k][1:3]
        v = lo + (hi - lo) * (0.25 + 0.4 * j / len(calls))
        ps.set_values({a: v})
        after = dict(zip(keys, ps.parameters["value"].tolist()))
        diff = {q for q in after if after[q] != before[q]}
        x.check(diff == {k} and after[k] == v and ps.get(a) == v, "by_name", "%s = %s changed %s", a, v, sorted(diff))
        before = after
    x.ok(len(calls))
    # ---- the limits can be reached and not passed
    for k in e:
        lo, hi = e[k][1:3]
        n = "%s:%s" % k
        if not first(x, ("limit", m, k, lo, hi)):
            continue
        for v in (lo, hi):
            x.check(refused(lambda: ps.set_values({n: v})) is None, "limit", "%s = %s refused", n, v)
        gap = (hi - lo) * 0.01
        for v in (lo - gap, hi + gap):
            x.check(refused(lambda: ps.set_values({n: v})) is not None, "limit", "%s = %s accepted", n, v)
        ps.set_values({n: before[k]})

    # ---- the core takes each of them where it is
    for k in e:
        x.check(model.settings.set_parameter_value(k[0], k[1], float(before[k])), "taken", "%s:%s is refused by the model", *k)

    # ---- the orders
    want = orders(m, o, names, types, e)
    at = {}
    for k in e:
        for a in [("%s:%s" % k).lower()] + [a.lower() for a in e[k][5]]:
            at[a] = k
    got = set()
    for a, op, b in ps.constraints:
        if a.lower() in at and b.lower() in at:
            a, b = at[a.lower()], at[b.lower()]
            got.add((a, op, b) if "<" in op or "l" in op else (b, {">": "<", ">=": "<="}[op], a))
    x.same(sorted(got), sorted(want), "orders", "the orders between parameters")
    if not first(x, ("order", m, frozenset(want))):
        want = set()
    # values that keep every order: longest chains of at most three
    rank = {}
    for _ in range(4):
        for a, op, b in want:
            rank.setdefault(a, 0)
            rank[b] = max(rank.get(b, 0), rank[a] + 1)

    def lay():
        for k in rank:
            lo, hi = e[k][1:3]
            ps.set_values({"%s:%s" % k: lo + (hi - lo) * (0.2 + 0.2 * rank[k])})
    lay()
    x.check(not want or ps.constraints_satisfied(), "ordered", "values in order count as out of order")
    for a, op, b in sorted(want):
        v, w = ps.get("%s:%s" % a), ps.get("%s:%s" % b)
        for va, vb, ok in ((v, v, op == "<="), (w, v, False), (v, w, True)):
            lo, hi = max(e[a][1], e[b][1]), min(e[a][2], e[b][2])
            if not (lo <= va <= hi and lo <= vb <= hi):
                raise Fail("table", "no common range for %s %s" % (a, b))
            # the other orders of the two must still hold for the verdict to be about this one
            ps.set_values({"%s:%s" % a: va, "%s:%s" % b: vb})
            x.same(ps.constraints_satisfied(), ok and holds(ps, want), "ordered", "%s %s %s for %g and %g" % (a, op, b, va, vb))
        lay()
    x.ok(3 * len(want))

    # ---- what an optimizer sees
    sc = scales(m, e)
    for k in e:
        n = "%s:%s" % k
        if k not in sc:
            x.check(ps.get_transform(n) is None, "scale", "%s has a scale of its own", n)
            continue
        if not first(x, ("scale", m, k)):
            continue
        f, vals = sc[k]
        for v in vals:
            ps.set_values({n: v})
            x.close(ps.get_transformed(n), f(v), 1e-12, "scale", "%s = %g as seen by an optimizer" % (n, v))
            ps.set_values({n: vals[0]})
            lo, hi = e[k][1:3]
            if lo < v < hi:
                ps.set_values({n: f(v)}, transformed=True)
                x.close(ps.get(n), v, 1e-9, "scale", "%s given to %g" % (n, f(v)))
    x.state((m, tuple(sorted(e))))
    x.dim("names", len(calls))


def holds(ps, want):
    for a, op, b in want:
        v, w = ps.get("%s:%s" % a), ps.get("%s:%s" % b)
        if v > w or op == "<" and v == w:
            return False
    return True
