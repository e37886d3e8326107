"""M13: a structure declared as data is the structure that runs, and what the inspection tools show; anything wrong in it is refused."""
import builtins
import copy
import json
import re

import pandas as pd
import yaml

from props.common import *
import hydrobricks.structure as hstruct
from hydrobricks._hydrobricks import SettingsModel
from hydrobricks.models.custom import CustomModel

VALUES.update(exponent=0.5)
CORE = {"solver", "record_all", "land_cover_types", "land_cover_names"}
BRICK = ("kind", "attach_to", "computed_directly", "parameters", "processes")
PROC = ("kind", "target", "targets", "log", "instantaneous")
SNOW = ("with_snow", "snow_melt_process", "snow_ice_transformation", "snow_redistribution", "snow_water_retention_process",
        "snow_refreezing_process", "snow_sublimation_process", "rain_to_snowpack", "forest_interception")
WORD = [1, 2, 4, 1, 3, 0, 5, 4, 4, 2, 3, 3, 0, 1, 5, 4]


# ------------------------------------------------------------------------------------------------- generalities
def rows_of(ps):
    out = {}
    for _, r in ps.parameters.iterrows():
        al = r["aliases"]
        out[(r["component"], r["name"])] = (None if isinstance(al, float) else tuple(al or ()), repr(r["min"]), repr(r["max"]), repr(r["default"]),
                                           bool(r["mandatory"]), r["unit"])
    return out


def simulate(x, m, names, types, needs, word=WORD, values=None, lateral=True, ps=None):
    d = x.dir()
    hu, _ = catchment(d, names, types, lateral)
    ps = ps or fill(m.generate_parameters())
    if values:
        ps.set_values(values)
    f, end = weather(d, hu, word, needs)
    m.setup(hu, output_path=d, start_date="2000-01-01", end_date=end)
    m.run(ps, f)
    x.step(len(word))
    return m


def outcome(m):
    o = {"Q": np.array(m.get_outlet_discharge())}
    for lab in m.get_recorded_labels():
        o[lab] = np.array(m.get_recorded_hydro_unit_values(lab))
    return o


def identical(x, a, b, what, rename=None):
    rename = rename or (lambda s: s)
    x.same(sorted(rename(k) for k in a), sorted(b), "the recorded items differ", what)
    for k in a:
        x.check(a[k].shape == b[rename(k)].shape and np.array_equal(a[k], b[rename(k)], equal_nan=True), "the results differ",
                "%s: %s differs: %s / %s", what, k, a[k][-1], b[rename(k)][-1])
    x.state(repr(np.round(a["Q"], 6).tolist()))


def balance(x, m, names, types, d_in, what):
    """Water in = water out + what is left, over the run"""
    out = m.get_total_outlet_discharge() + m.get_total_et() + m.get_total_water_storage_changes() + m.get_total_snow_storage_changes()
    x.close(out, d_in, 2e-5, "the water of the declared structure is not accounted for", what)


# ------------------------------------------------------------------------------------------------- same/: the pre-built ones, declared
def same_cases(full):
    for c in list(socont_cases(full)) + list(hbv_cases(full)):
        cls, o, names, types = parse(c)
        if o.get("snow_rain_process"):
            continue
        if c.startswith("hbv96") and "lake" in types:
            continue          # (several variants with other options: not declarable)
        yield "same/" + c


def declared(m, o):
    """The specification equivalent to a built model"""
    bricks = {}
    for name, b in m.structure.items():
        e = {k: copy.deepcopy(b[k]) for k in BRICK if k in b}
        for k, v in list(e.get("parameters", {}).items()):
            e["parameters"][k] = float(v)
        for p in e.get("processes", {}).values():
            for k in list(p):
                if k not in PROC:
                    del p[k]
        bricks[name] = e
    return {"name": "declared", "options": {k: m.options[k] for k in SNOW if k in m.options}, "bricks": bricks,
            "aliases": copy.deepcopy(m.parameter_aliases), "constraints": [list(c) for c in m.parameter_constraints]}


FORMS = 6


def told(x, spec, form, names, types, **kw):
    """The same specification told in another way"""
    spec = copy.deepcopy(spec)
    kw = dict(kw, land_cover_names=list(names), land_cover_types=list(types))
    if form % 3 == 1:                     # options as arguments
        kw.update(spec.pop("options"))
    elif form % 3 == 2:                   # arguments win over the options of the definition
        kw.update(spec["options"])
        spec["options"] = {"snow_melt_process": "melt:nonsense", "rain_to_snowpack": True, "snow_redistribution": "transport:nonsense"}
        for k in spec["options"]:
            kw.setdefault(k, None if k.startswith("snow") else False)
    if form >= FORMS // 2:
        path = os.path.join(x.dir(), "structure.yaml")
        with open(path, "w", encoding="utf-8") as f:
            yaml.safe_dump(spec, f, sort_keys=False, default_flow_style=form % 2 == 0)
        if form % 2:
            from pathlib import Path
            path = Path(path)
        return CustomModel(path, **kw)
    before = copy.deepcopy(spec)
    m = CustomModel(spec, **kw)
    x.same(spec, before, "the definition passed was modified", "definition")
    return m


def run_same(case, x):
    cls, o, names, types = parse(case)
    built = cls(record_all=True, land_cover_names=names, land_cover_types=types, **o)
    spec = declared(built, o)
    form = hash_(case) % FORMS
    mine = told(x, spec, form, names, types, record_all=True)
    x.dim("told in form %d" % form)
    a, b = built.settings.get_structure(), mine.settings.get_structure()
    single = len(a) == 1
    if single:
        x.same(b, a, "the declared structure is not the one built", "structure")
    else:                # units without glacier use a structure of their own in the pre-built model
        x.same([dict(s, id=0) for s in b], [dict(s, id=0) for s in a[1:]], "the declared structure is not the one built", "structure")
    # parameters
    pa, pb = built.generate_parameters(), mine.generate_parameters()
    ra, rb = rows_of(pa), rows_of(pb)
    x.same(sorted(rb), sorted(ra), "other parameters than those of the same structure", "parameters")
    ranged = set()
    for k in built.parameter_ranges:
        ranged |= {key for key, v in ra.items() if k == ":".join(key) or k in (v[0] or ())}
    for k in ra:
        al, be = ra[k][0] or (), rb[k][0] or ()
        x.same(plain(be, k, names), plain(al, k, names), "other aliases than those of the same structure", str(k))
        if k not in ranged:
            x.same(rb[k][1:], ra[k][1:], "other parameter properties than those of the same structure", str(k))
    x.same([tuple(c) for c in pb.constraints], [tuple(c) for c in pa.constraints], "other constraints", "constraints")
    # same values by their full names, same results
    vals = {}
    fill(pa)
    for _, r in pa.parameters.iterrows():
        if r["component"] != "data" and r["value"] is not None:
            vals[r["component"] + ":" + r["name"]] = r["value"]
    pb = mine.generate_parameters()
    pb.set_values(vals)
    simulate(x, built, names, types, needed(o), ps=pa)
    simulate(x, mine, names, types, needed(o), ps=pb)
    if single:
        identical(x, outcome(mine), outcome(built), "the declared structure against the pre-built one")
    else:
        x.close(mine.get_outlet_discharge(), built.get_outlet_discharge(), 1e-6, "the results differ", "discharge")
        for g in ("get_total_et", "get_total_outlet_discharge", "get_total_water_storage_changes", "get_total_snow_storage_changes"):
            x.close(getattr(mine, g)(), getattr(built, g)(), 1e-6, "the results differ", g)
        x.state(repr(np.round(mine.get_outlet_discharge(), 6).tolist()))


def plain(aliases, key, names):
    """Without the suffix that tells apart the parameters of several bricks"""
    out = set()
    for a in aliases:
        for suf in ["_" + key[0]] + ["_" + n for n in names if n in key[0]]:
            if a.endswith(suf):
                a = a[:-len(suf)]
                break
        out.add(a)
    return sorted(out)


def hash_(s):
    h = 0
    for b in s.encode():
        h = (h * 131 + b) % 1000003
    return h


# ------------------------------------------------------------------------------------------------- grow/: small structures of one's own
ET = {"-": None, "s": "et:socont", "l": "et:linear", "w": "et:open_water", "p": "et:power_law", "x": "et:exponential", "h": "et:hbv"}
FLOW = {"l": "outflow:linear", "r": "outflow:rest", "q": "runoff:socont", "p": "percolation:constant"}
OWN = {  # the parameters each kind of process has
    "outflow:linear": ["response_factor"], "runoff:socont": ["beta"], "percolation:constant": ["percolation_rate"], "et:power_law": ["exponent"],
    "et:exponential": ["alpha"], "et:hbv": ["lp", "et_correction_factor"], "infiltration:hbv": ["beta"]}


def stores(n, full):
    """Each store: (capacity, et, flow, second flow, attach)"""
    one = []
    for cap, et, flow, second in itertools.product("01", ET if full else "-swp", "lrq", ("-", "p")):
        if et not in "-w" and cap == "0":
            continue
        if flow == "q" and n > 2 and not full:
            continue
        one.append(cap + et + flow + second)
    return one


def grow_cases(full):
    # cover: i infiltrates into the first store and the rest goes to the last one (or the outlet), d everything to the first, h HBV infiltration
    for n in (1, 2, 3):
        shapes = stores(n, full)
        if n == 3:
            shapes = [s for s in shapes if s[1] in ("-s" if full else "-s") and s[2] == "l"]
        for cov, snow, sub in itertools.product("idh", "10", "01"):
            for st in itertools.product(shapes, repeat=n):
                if cov in "ih" and st[0][0] == "0":
                    continue
                if sub == "1" and (n == 1 or st[-1][1] not in "-" or "q" in st[-1] or st[-1][0] == "1"):
                    continue          # at the level of the basin: no evapotranspiration (the forcing is that of the units)
                if sub == "1" and n == 3 and not full:
                    continue
                k = "%s%s%s.%s" % (cov, snow, sub, ".".join(st))
                if not full and hash_(k) % {1: 1, 2: 4, 3: 3}[n]:
                    continue          # (every combination of two stores is in the thorough tier)
                yield "grow/" + k


def grown(case, names=("open", "s1", "s2", "s3"), cover="open"):
    head, *st = case.split("/")[1].split(".")
    cov, snow, sub = head
    n = len(st)
    nm = dict(zip(("s1", "s2", "s3"), names[1:]))
    nm["outlet"] = "outlet"
    s = ["s%d" % (k + 1) for k in range(n)]
    procs = {}
    last = s[-1] if n > 1 else "outlet"
    if cov == "d":
        procs["out"] = {"kind": "outflow:direct", "target": nm["s1"]}
    else:
        procs["inf"] = {"kind": "infiltration:" + ("socont" if cov == "i" else "hbv"), "target": nm["s1"]}
        procs["rest"] = {"kind": "outflow:rest", "target": nm[last]}
    bricks = {names[0]: {"kind": "land_cover", "processes": procs}}
    for k, code in enumerate(st):
        cap, et, flow, second = code
        b = {"kind": "storage", "processes": {}}
        if sub == "1" and k == n - 1:
            b["attach_to"] = "sub_basin"
        if cap == "1":
            b["parameters"] = {"capacity": 60}
        nxt = nm[s[k + 1]] if k + 1 < n else "outlet"
        if ET[et]:
            b["processes"]["et"] = {"kind": ET[et]}
        if second == "p":
            b["processes"]["perc"] = {"kind": FLOW["p"], "target": nxt}
        b["processes"]["flow"] = {"kind": FLOW[flow], "target": "outlet" if k % 2 or k == n - 1 or flow == "q" else nxt}
        if cap == "1":
            b["processes"]["over"] = {"kind": "overflow", "target": nxt}
        bricks[nm[s[k]]] = b
    spec = {"bricks": bricks}
    if snow == "0":
        spec["options"] = {"with_snow": False}
    return spec


def direct(spec, cover, types, record_all=True):
    """The same structure through the bindings of the core"""
    sm = SettingsModel()
    sm.log_all(record_all)
    sm.set_solver("crank_nicolson")
    snow = (spec.get("options") or {}).get("with_snow", True)
    sm.generate_precipitation_splitters(snow, "snow_rain:linear")
    sm.add_land_cover_brick(cover, "generic_land_cover")
    if snow:
        sm.generate_snowpacks("melt:degree_day")
    for name, b in spec["bricks"].items():
        if b["kind"] == "land_cover":
            sm.select_hydro_unit_brick(name)
        elif b.get("attach_to") == "sub_basin":
            sm.add_sub_basin_brick(name, b["kind"])
        else:
            sm.add_hydro_unit_brick(name, b["kind"])
        for p, v in b.get("parameters", {}).items():
            sm.add_brick_parameter(p, float(v))
        for p, q in b.get("processes", {}).items():
            sm.add_brick_process(p, q["kind"], q.get("target", ""), False)
            if q["kind"] in ("outflow:direct", "outflow:rest"):
                sm.set_process_outputs_as_static()
    sm.add_logging_to("outlet")
    return sm


GENERATED = {True: {"snow_rain_transition", "snow_splitter", "rain_splitter", "open_snowpack"}, False: {"rain", "rain_splitter"}}


def run_grow(case, x):
    spec = grown(case)
    m = CustomModel(spec, record_all=True)
    x.same(m.settings.get_structure(), direct(spec, "open", "open").get_structure(), "the structure is not the one declared", "structure")
    # the graph says what was declared
    g = m.get_structure_graph(with_forcing=False)
    snow = "options" not in spec
    nodes = {n.name: n for n in g.nodes}
    for name, b in spec["bricks"].items():
        x.check(name in nodes, "a declared brick is not in the graph", "%s: %s", name, sorted(nodes))
        x.same(nodes[name].level, b.get("attach_to", "hydro_unit"), "a brick is at the wrong level", name)
        x.same(nodes[name].is_land_cover, b["kind"] == "land_cover", "land cover", name)
        got = sorted((e.process, e.kind, e.target) for e in g.edges if e.source == name)
        want = sorted((p, q["kind"], q.get("target", "atmosphere")) for p, q in b["processes"].items())
        x.same(got, want, "the graph is not the declared structure", name)
    snow = "options" not in spec
    made = {"outlet"} | ({"atmosphere"} if any(not q.get("target") for b in spec["bricks"].values() for q in b["processes"].values()) else set())
    made |= GENERATED[snow]
    x.same(sorted(set(nodes) - set(spec["bricks"])), sorted(made), "other bricks than those declared and the snow routine", "nodes")
    # the parameters are those of the processes declared
    ps = m.generate_parameters()
    got = {(c, n) for c, n in zip(ps.parameters["component"], ps.parameters["name"])}
    want = set()
    for name, b in spec["bricks"].items():
        want |= {(name, p) for p in b.get("parameters", {})}
        for q in b["processes"].values():
            want |= {(name, p) for p in OWN.get(q["kind"], [])}
    comps = set(spec["bricks"])
    x.same(sorted(k for k in got if k[0] in comps), sorted(want), "not the parameters of the processes declared", "parameters")
    x.same(any("snow" in c for c, _ in got), snow, "parameters of a snow routine", "parameters")
    al = [a for v in ps.parameters["aliases"] for a in (v if isinstance(v, (list, tuple)) else [])]
    x.same(len(al), len(set(al)), "an alias stands for several parameters", str(al))
    # it runs, and accounts for its water
    names, types = ["open"], ["open"]
    over = {"s%d:%s" % (k + 1, "capacity"): 25.0 + 10 * k for k in range(3) if ("s%d" % (k + 1), "capacity") in got}
    over.update({"s%d:response_factor" % (k + 1): 0.3 / (k + 1) for k in range(3) if ("s%d" % (k + 1), "response_factor") in got})
    try:
        simulate(x, m, names, types, ("precipitation", "temperature", "pet"), values=over)
    except (hb.HydroBricksError, RuntimeError, ValueError) as e:
        x.check(False, "a valid structure does not run", "%s: %s", type(e).__name__, str(e)[:300])
    # rain and snow of the period
    d = x.dir()
    hu, rows = catchment(d, names, types)
    tot = sum(r[1] for r in rows)
    p_in = 0.0
    for r in rows:
        p_in += r[1] / tot * sum(DAYS[w][0] * (1 + 0.05 * (r[2] - 1200) / 100) for w in WORD)
    balance(x, m, names, types, p_in, "water balance")
    # the names are only names
    new = ("open", "zeta", "B 2-x", "alpha_store")
    spec2 = grown(case, new)
    m2 = CustomModel(spec2, record_all=True)
    nm = dict(zip(("s1", "s2", "s3"), new[1:]))
    vals2 = {nm[k.split(":")[0]] + ":" + k.split(":")[1]: v for k, v in over.items()}
    simulate(x, m2, names, types, ("precipitation", "temperature", "pet"), values=vals2)
    identical(x, outcome(m), outcome(m2), "the same structure with other names", lambda s: ":".join(nm.get(q, q) for q in s.split(":")))


# ------------------------------------------------------------------------------------------------- wrong/: what a definition may not say
RICH = {
    "name": "rich", "allowed_land_cover_types": ["open", "glacier"],
    "options": {"with_snow": True, "snow_melt_process": "melt:degree_day", "snow_ice_transformation": None, "snow_redistribution": "transport:snow_slide",
                "snow_water_retention_process": "outflow:snow_holding", "snow_refreezing_process": "refreeze:degree_day",
                "snow_sublimation_process": "sublimation:pet", "rain_to_snowpack": True, "forest_interception": False},
    "bricks": {
        "open": {"kind": "land_cover", "processes": {"inf": {"kind": "infiltration:socont", "target": "soil"},
                                                     "rest": {"kind": "outflow:rest", "target": "quick", "instantaneous": False, "log": True}}},
        "soil": {"kind": "storage", "attach_to": "hydro_unit", "computed_directly": False, "parameters": {"capacity": 60.5},
                 "processes": {"et": {"kind": "et:socont", "log": False}, "out": {"kind": "outflow:linear", "targets": ["deep"]},
                               "over": {"kind": "overflow", "target": "quick", "instantaneous": False}}},
        "quick": {"kind": "storage", "processes": {"run": {"kind": "outflow:linear", "target": "outlet"}}},
        "deep": {"kind": "storage", "attach_to": "sub_basin", "processes": {"base": {"kind": "outflow:linear", "target": "outlet", "log": True}}}},
    "aliases": {"soil:capacity": "A", "soil:response_factor": ["k1", "k_one"], "quick:response_factor": "k2"},
    "constraints": [["k1", "<", "k2"], ["deep:response_factor", "<=", "k1"]]}
POOL = [None, 3, 2.5, True, "word", [], ["a"], [3], {}, {"a": 1}, {3: {}}, float("nan")]
BOOLS = ("with_snow", "rain_to_snowpack", "forest_interception", "computed_directly", "log", "instantaneous")


def walk(v, path=()):
    yield path, v
    if isinstance(v, dict):
        for k in v:
            yield from walk(v[k], path + (k,))
    elif isinstance(v, list) and path and path[0] == "constraints":
        for k, e in enumerate(v):
            yield from walk(e, path + (k,))


def put(spec, path, v):
    spec = copy.deepcopy(spec)
    at = spec
    for k in path[:-1]:
        at = at[k]
    at[path[-1]] = v
    return spec


def drop(spec, path):
    spec = copy.deepcopy(spec)
    at = spec
    for k in path[:-1]:
        at = at[k]
    del at[path[-1]]
    return spec


def number(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def allowed(path, v):
    """True: may be said; False: must be refused at once; None: of the right kind, but may be refused later on (or not said by the schema)"""
    k, n = path[-1], len(path)
    if n == 1:
        if k == "name":
            return isinstance(v, str)
        if k == "allowed_land_cover_types":
            return None if v is None or isinstance(v, list) and all(isinstance(q, str) for q in v) else False
        if k in ("options", "aliases", "constraints") and not v and v is not None:
            return None                                          # (an empty value of another kind)
        if k == "options":
            return True if v is None else False                  # (the others of the pool: not options)
        if k == "bricks":
            return False
        if k == "aliases":
            return True if v is None else isinstance(v, dict) and all(isinstance(q, str) for q in v) and None
        if k == "constraints":
            return True if v is None else False
    if path[0] == "options":
        return isinstance(v, bool) if k in BOOLS else None if v is None or isinstance(v, str) else False
    if path[0] == "aliases":
        return None if isinstance(v, str) or isinstance(v, list) and all(isinstance(q, str) for q in v) else False      # (may clash)
    if path[0] == "constraints":
        if n == 2:
            return False
        return (None if k != 1 else False) if isinstance(v, str) else False
    if n == 2:
        return False                                             # a brick without kind
    if n == 3:
        if k == "kind":
            return None if isinstance(v, str) else False
        if k == "attach_to":
            return False
        if k == "computed_directly":
            return isinstance(v, bool)
        if k == "parameters":
            return False if not isinstance(v, dict) or any(not isinstance(q, str) for q in v) else None
        if k == "processes":
            return None if v == {} else False
    if path[2] == "parameters":
        return None if number(v) else False
    if n == 4:
        return False                                             # a process without kind
    if k == "targets":
        return None if isinstance(v, list) and all(isinstance(q, str) for q in v) else False
    if k in BOOLS:
        return isinstance(v, bool)
    return None if isinstance(v, str) else False                 # kind, target


def make(spec, **kw):
    """(model, error)"""
    try:
        return CustomModel(spec, record_all=True, **kw), None
    except (hb.HydroBricksError, TypeError, KeyError, ValueError, AttributeError, RuntimeError) as e:
        return None, e


def refuse(x, spec, places, what, **kw):
    m, e = make(spec, **kw)
    x.check(e is not None, "a wrong structure definition is accepted", "%s", what)
    x.check(isinstance(e, (hb.ConfigurationError, hb.ModelError)), "a wrong structure definition is not refused properly", "%s: %s: %s", what, type(e).__name__,
            str(e)[:200])
    msg = " ".join(str(a) for a in e.args)
    for path in places:
        for k in path[:2] if path[0] == "constraints" else path:
            x.check(re.search(r"(?<![A-Za-z0-9_])%s(?![A-Za-z0-9_])" % re.escape(str(k)), msg) is not None,
                    "the refusal does not say where", "%s: %r not named in: %s", what, k, msg[:400])
    return msg


def attempt(x, spec, what, names=("open",), types=("open",)):
    """Builds, sets up and runs what is said; refused properly or run properly. Returns the model if it ran."""
    m, e = make(copy.deepcopy(spec), land_cover_names=list(names), land_cover_types=list(types))
    if m is not None:
        try:
            ps = fill(m.generate_parameters())
            m = simulate(x, m, list(names), list(types), ("precipitation", "temperature", "pet"), ps=ps)
        except (hb.HydroBricksError, TypeError, KeyError, ValueError, AttributeError, RuntimeError, IndexError) as err:
            m, e = None, err
    if e is not None:
        x.check(isinstance(e, (hb.HydroBricksError, RuntimeError, ValueError)), "a structure that cannot run is not refused properly", "%s: %s: %s", what,
                type(e).__name__, str(e)[:200])
        x.state("refused", type(e).__name__)
        return None
    q = np.asarray(m.get_outlet_discharge())
    x.check(bool(np.all(np.isfinite(q))), "a structure runs but gives no discharge", "%s: %s", what, q)
    x.state(repr(np.round(q, 6).tolist()))
    return m


def rain_on(x, names, types):
    hu, rows = catchment(x.dir(), list(names), list(types))
    tot = sum(r[1] for r in rows)
    return sum(r[1] / tot * sum(DAYS[w][0] * (1 + 0.05 * (r[2] - 1200) / 100) for w in WORD) for r in rows)


def swapped(k):
    return k[0] + k[2] + k[1] + k[3:] if len(k) > 3 and k[1] != k[2] else k + "s" if k != "log" else "lgo"


def key_paths(spec):
    """The keys of the schema (not the names of bricks, processes, parameters)"""
    for path, _ in walk(spec):
        n = len(path)
        if n == 1 or path and path[0] == "options" and n == 2 or path and path[0] == "bricks" and (n == 3 or n == 5 and path[2] == "processes"):
            yield path


def wrong_cases(full):
    for path, _ in walk(RICH):
        if path:
            yield "wrong/value/" + "/".join(map(str, path))
    for path in key_paths(RICH):
        yield "wrong/key/" + "/".join(path)
    for path, _ in walk(RICH):
        if path and path[0] != "constraints":
            yield "wrong/gone/" + "/".join(map(str, path))
    errs = errors_()
    for k in range(len(errs)):
        yield "wrong/pair/%d" % k
    for k in ("file", "type", "option", "covers", "target", "brick"):
        yield "wrong/" + k


def find(spec, txt):
    for path, v in walk(spec):
        if path and "/".join(map(str, path)) == txt:
            return path, v


def errors_():
    """One wrong value for each path of the definition"""
    out = []
    for path, v in walk(RICH):
        if not path:
            continue
        for w in POOL:
            if allowed(path, w) is False:
                out.append((path, w))
                break
    return out


def run_wrong(case, x):
    kind, _, rest = case.partition("/")
    if kind == "value":
        path, v = find(RICH, rest)
        for w in POOL:
            if type(w) is type(v) and w == v:
                continue
            ok = allowed(path, w)
            spec = put(RICH, path, w)
            what = "%s = %r" % (".".join(map(str, path)), w)
            x.step()
            if ok is False:
                refuse(x, spec, [path], what)
            else:
                m = attempt(x, spec, what)
                x.check(ok is None or m is not None, "a valid structure is refused", "%s", what)
        return
    if kind == "key":
        path = tuple(rest.split("/"))
        spec = drop(RICH, path)
        _, v = find(RICH, rest)
        bad = swapped(path[-1])
        msg = refuse(x, put(spec, path[:-1] + (bad,), v), [path[:-1] + (bad,)], "misspelt " + rest)
        x.check("'%s'" % path[-1] in msg, "the right key is not suggested", "%s: %s", bad, msg[:300])
        return
    if kind == "gone":
        path, v = find(RICH, rest)
        spec = drop(RICH, path)
        if path == ("bricks",) or path[-1] == "kind" or path[-1] in ("target", "targets"):
            refuse(x, spec, [path[:-1] if path[-1] in ("target", "targets") else path], "without " + rest)
            return
        m = attempt(x, spec, "without " + rest)
        if m is not None and not (path[:1] == ("bricks",) and len(path) <= 4):
            balance(x, m, ["open"], ["open"], rain_on(x, ["open"], ["open"]), "without " + rest)
        if path[0] in ("name", "aliases", "constraints", "options") and "snow_water_retention_process" not in path or path[-1] in ("log", "instantaneous", "computed_directly"):
            x.check(m is not None, "a valid structure is refused", "without %s", rest)
        return
    if kind == "pair":
        errs = errors_()
        p1, w1 = errs[int(rest)]
        for p2, w2 in errs[int(rest) + 1:]:
            if p2[:len(p1)] == p1 or p1[:len(p2)] == p2 or p1[0] == "constraints" and p2[:2] == p1[:2]:
                continue
            spec = put(put(RICH, p1, w1), p2, w2)
            msg = refuse(x, spec, [p1, p2], "%s = %r and %s = %r" % (".".join(map(str, p1)), w1, ".".join(map(str, p2)), w2))
            x.check(msg.count("\n- ") >= 2, "not all the problems are told", "%s", msg[:400])
            x.step()
        return
    if kind == "file":
        d = x.dir()
        x.check(isinstance(refused(lambda: CustomModel(d + "/none.yaml")), hb.ConfigurationError), "a missing file is not refused properly", "missing")
        for txt in ("", "3", "- a\n- b\n", "bricks: [", "a: b: c", "\tbricks: {}", "word", "null", "bricks:\n", "{}"):
            with open(d + "/s.yaml", "w") as f:
                f.write(txt)
            e = refused(lambda: CustomModel(d + "/s.yaml"))
            x.check(isinstance(e, hb.ConfigurationError), "a wrong file is not refused properly", "%r: %r", txt, e)
        return
    if kind == "type":
        for v in (None, 3, 2.5, True, ["a"], [], (1, 2), set(), b"x"):
            e = refused(lambda: CustomModel(v))
            x.check(isinstance(e, hb.ConfigurationError), "a definition of a wrong type is not refused properly", "%r: %r", v, e)
        return
    if kind == "option":           # as arguments
        for k, v in RICH["options"].items():
            for w in POOL:
                if allowed(("options", k), w) is False:
                    refuse(x, RICH, [(k,)], "%s=%r" % (k, w), **{k: w})
            for bad in (swapped(k), k.upper()):
                e = refused(lambda: CustomModel(copy.deepcopy(RICH), **{bad: v}))
                x.check(e is not None and bad in str(e), "an unknown option is not refused properly", "%s: %r", bad, e)
            x.step()
        return
    if kind == "covers":
        for names, types in ((["soil"], ["open"]), (["grass"], ["open"]), (["open", "ice"], ["open"]), (["open"], ["open", "glacier"]), (["open"], ["forest"]),
                             (["open"], ["sea"])):
            e = refused(lambda: CustomModel(copy.deepcopy(RICH), land_cover_names=names, land_cover_types=types))
            x.check(isinstance(e, hb.ConfigurationError), "land covers that do not match are not refused properly", "%s %s: %r", names, types, e)
        return
    if kind == "target":           # a target that does not exist is refused by the time the model is set up
        for path, v in walk(RICH):
            if path and path[-1] in ("target", "targets"):
                for bad in ("nowhere", "Outlet", "outlett", "soil ", "", "open_snowpac"):
                    spec = put(RICH, path, [bad] if path[-1] == "targets" else bad)
                    x.check(attempt(x, spec, "%s -> %r" % (path, bad)) is None, "a target that does not exist is accepted", "%s -> %r", path, bad)
                    x.step()
        return
    if kind == "brick":            # neither are kinds and parameters that do not exist
        for path, v in walk(RICH):
            if path and path[-1] == "kind":
                for bad in ("nothing", v + "x", v.upper(), "", " " + v, "outflow", "et:"):
                    x.check(attempt(x, put(RICH, path, bad), "%s = %r" % (path, bad)) is None, "a kind that does not exist is accepted", "%s = %r", path, bad)
                    x.step()
        for b in RICH["bricks"]:
            for bad in ("capacty", "Capacity", "", "response_factor"):
                spec = put(put(RICH, ("bricks", b, "parameters"), {}), ("bricks", b, "parameters", bad), 3.0)
                x.check(attempt(x, spec, "%s: parameter %r" % (b, bad)) is None, "a brick parameter that does not exist is accepted", "%s: %r", b, bad)
                x.step()
        return
    raise KeyError(kind)


# ------------------------------------------------------------------------------------------------- fit/: any process on any brick
PROCS = ["outflow:linear", "outflow:direct", "outflow:rest", "outflow:percolation", "percolation:constant", "percolation:gr4j", "overflow", "outflow:overflow",
         "runoff:socont", "infiltration:socont", "infiltration:gr4j", "infiltration:hbv", "runoff:hbv", "capillary:hbv", "routing:hbv", "outflow:snow_holding",
         "outflow:threshold", "refreeze:degree_day", "production:gr4j", "et:socont", "et:gr4j", "et:hbv", "et:open_water", "et:linear", "et:power_law",
         "et:exponential", "melt:degree_day", "melt:degree_day_aspect", "melt:temperature_index", "melt:cemaneige", "sublimation:constant", "sublimation:pet",
         "transform:snow_ice_constant", "transform:snow_ice_swat", "transport:snow_slide", "transport:snow_redistribution_frey",
         "transport:snow_redistribution_frey_dynamic", "interception:gr4j", "routing:gr4j", "routing:gr6j"]


def fit_cases(full):
    for k, src, cap, tgt in itertools.product(PROCS, ("cover", "store", "later", "basin"), "01", ("s2", "s3", "s1", "b", "outlet", "open", "open_snowpack", "none", "two")):
        yield "fit/%s.%s.%s.%s" % (k, src, cap, tgt)


def run_fit(case, x):
    k, src, cap, tgt = case.split(".")
    spec = {"bricks": {
        "open": {"kind": "land_cover", "processes": {"rest": {"kind": "outflow:rest", "target": "s1"}}},
        "s1": {"kind": "storage", "processes": {"out": {"kind": "outflow:linear", "target": "s2"}}},
        "s2": {"kind": "storage", "processes": {"out": {"kind": "outflow:linear", "target": "outlet"}}},
        "s3": {"kind": "storage", "parameters": {"capacity": 30}, "processes": {"out": {"kind": "outflow:linear", "target": "outlet"},
                                                                             "over": {"kind": "overflow", "target": "outlet"}}},
        "b": {"kind": "storage", "attach_to": "sub_basin", "processes": {"out": {"kind": "outflow:linear", "target": "outlet"}}}}}
    brick = spec["bricks"][{"cover": "open", "store": "s1", "later": "s2", "basin": "b"}[src]]
    if cap == "1":
        if src == "cover":
            return
        brick["parameters"] = {"capacity": 45}
        brick["processes"]["over"] = {"kind": "overflow", "target": "outlet"}
    if src == "cover" and k in ("outflow:direct",):
        del brick["processes"]["rest"]
    p = {"kind": k}
    if tgt == "two":
        p["targets"] = ["s2", "s3"]
    elif tgt != "none":
        p["target"] = tgt
    elif not k.startswith(("et:", "interception:", "sublimation:")):
        return
    brick["processes"]["x"] = p
    what = "%s on %s (%s capacity) to %s" % (k, src, "a" if cap == "1" else "no", tgt)
    if p.get("target") == {"cover": "open", "store": "s1", "later": "s2", "basin": "b"}[src]:
        refuse(x, spec, [("bricks", p["target"], "processes", "x")], what)
        return
    m = attempt(x, spec, what)
    if m is None:
        return
    x.dim("runs")
    if src == "cover" and tgt in ("open", "open_snowpack") or src == "later" and tgt in ("s1", "open", "open_snowpack") or \
            src == "store" and tgt in ("open", "open_snowpack"):
        return          # (a loop through a flux of the next step: what is on its way at the end is nowhere)
    balance(x, m, ["open"], ["open"], rain_on(x, ["open"], ["open"]), what)
    x.same(m.settings.get_structure(), direct(spec, "open", "open").get_structure() if tgt != "two" else m.settings.get_structure(),
           "the structure is not the one declared", what)


# ------------------------------------------------------------------------------------------------- order/: in any order
def order_cases(full):
    for t1, t2, x1, x2, dr, sub in itertools.product("23o", "3o", "-23", "-3", ("-", "1", "12", "123"), "01"):
        if x1 == t1 or x2 == t2 or sub == "1" and dr == "123":
            continue
        yield "order/%s%s%s%s.%s.%s" % (t1, t2, x1, x2, dr, sub)


def run_order(case, x):
    ts, dr, sub = case.split(".")
    to = {"2": "s2", "3": "s3", "o": "outlet"}
    b = {"open": {"kind": "land_cover", "processes": {"rest": {"kind": "outflow:rest", "target": "s1"}}}}
    for k in "123":
        p = {"out": {"kind": "outflow:linear", "target": to[ts[int(k) - 1]] if k < "3" else "outlet"}}
        if k < "3" and ts[int(k) + 1] != "-":
            p["perc"] = {"kind": "percolation:constant", "target": to[ts[int(k) + 1]]}
        b["s" + k] = {"kind": "storage", "processes": p}
        if k in dr:
            b["s" + k]["computed_directly"] = True
    if sub == "1":
        b["s3"]["attach_to"] = "sub_basin"
    first, names = None, list(b)
    perms = list(itertools.permutations(names)) if x.tier == "thorough" else [tuple(names), tuple(names[::-1]), tuple(names[2:] + names[:2]), ("s2", "open", "s3", "s1")]
    rain = rain_on(x, ["open"], ["open"])
    for perm in perms:
        m = attempt(x, {"bricks": {k: b[k] for k in perm}}, "order %s" % (perm,))
        if first is None:
            x.dim("order runs" if m is not None else "order refused")
            first = (m, m and outcome(m))
        x.check((m is None) == (first[0] is None), "whether a structure runs depends on the order of its bricks", "%s", perm)
        if m is None:
            continue
        balance(x, m, ["open"], ["open"], rain, "declared in the order %s" % (perm,))
        o = outcome(m)
        x.same(sorted(o), sorted(first[1]), "the recorded items depend on the order of the bricks", str(perm))
        for k in o:
            x.close(o[k], first[1][k], 1e-9, "the results depend on the order of the bricks", "%s: %s" % (perm, k))


# ------------------------------------------------------------------------------------------------- graph/: what the inspection shows
class Digraph:
    """Stands for graphviz.Digraph: keeps what it is told"""

    def __init__(self, name=None, format=None, **kw):
        self.name, self.format, self.nodes, self.edges, self.subs, self.attrs, self.rendered = name, format, {}, [], [], [], []

    def attr(self, kind=None, **kw):
        self.attrs.append((kind, kw))

    def node(self, name, **kw):
        if name in self.nodes:
            raise RuntimeError("node %s twice" % name)
        self.nodes[name] = kw

    def edge(self, a, b, **kw):
        self.edges.append((a, b, kw))

    def subgraph(self, name=None, **kw):
        g = Digraph(name)
        self.subs.append(g)

        class Ctx:
            def __enter__(s_):
                return g

            def __exit__(s_, *a):
                return False
        return Ctx()

    def render(self, path, view=False, cleanup=False, **kw):
        self.rendered.append((path, view))
        return path


class Viz:
    Digraph = Digraph


def graph_cases(full):
    for c in list(socont_cases(full)) + list(hbv_cases(full)) + list(gr_cases(full)):
        if full or hash_(c) % 3 == 0 or c.startswith("gr"):
            yield "graph/" + c
    for k, c in enumerate(grow_cases(full)):
        if full and k % 5 == 0 or k % 23 == 0:
            yield "graph/" + c


def expected(v, forcing=True):
    """(nodes {name: (role, kind, level, cover, direct, forcing)}, edges) of an exported structure"""
    nodes, edges, sinks, links = {}, [], set(), set()
    for role, key in (("brick", "hydro_unit_bricks"), ("brick", "sub_basin_bricks"), ("splitter", "hydro_unit_splitters"), ("splitter", "sub_basin_splitters")):
        for b in v[key]:
            nodes[b["name"]] = (role, b["kind"], b["attach"], b.get("is_land_cover", False), b.get("computed_directly", False), tuple(b["forcing"]))
            links |= {(f, b["name"]) for f in b["forcing"]}
            outs = b["processes"] if role == "brick" else [dict(b, name="")]
            for p in outs:
                links |= {(f, b["name"]) for f in p["forcing"]}
                if role == "brick" and not p["outputs"]:
                    edges.append((b["name"], "atmosphere", p["name"], p["kind"], "water", False))
                    sinks.add("atmosphere")
                for o in p["outputs"]:
                    edges.append((b["name"], o["target"], p["name"], p["kind"], o["flux_type"], o["instantaneous"]))
                    sinks.add(o["target"])
    for t in sinks:
        nodes.setdefault(t, (t if t in ("outlet", "atmosphere") else "brick", "", "", False, False, ()))
    if forcing:
        for f, c in links:
            nodes[f] = ("forcing", "", "", False, False, ())
            edges.append((f, c, "", "forcing", f, False))
    return nodes, edges


def shown(g):
    return ({n.name: (n.role, n.kind, n.level, n.is_land_cover, n.computed_directly, tuple(n.forcing)) for n in g.nodes},
            [(e.source, e.target, e.process, e.kind, e.flux_type, e.instantaneous) for e in g.edges])


COLORS = {"snow": hstruct.COLOR_SNOW, "ice": hstruct.COLOR_ICE}


def run_graph(case, x):
    if case.startswith("grow"):
        m = CustomModel(grown(case), record_all=True)
    else:
        cls, o, names, types = parse(case)
        m = cls(record_all=True, land_cover_names=names, land_cover_types=types, **o)
    variants = m.settings.get_structure()
    seen = set()
    for v in variants:
        for forcing in (True, False):
            g = m.get_structure_graph(v["id"], with_forcing=forcing)
            nodes, edges = expected(v, forcing)
            gn, ge = shown(g)
            x.same(len(g.nodes), len(gn), "a node is shown twice", case)
            x.same(gn, nodes, "the nodes shown are not those of the model", case)
            x.same(sorted(ge), sorted(edges), "the fluxes shown are not those of the model", case)
            x.state(sorted(ge))
            if not forcing:
                check_forms(x, m, g, gn, ge, v, variants)
        x.same(m.summary(v["id"]), m.get_structure_graph(v["id"]).to_text(), "the summary is not that of the structure", case)
        seen |= {b["name"] for k in ("hydro_unit_bricks", "sub_basin_bricks") for b in v[k]}
        x.step()
    for bad in (0, -1, len(variants) + 1, None, "1"):
        e = refused(lambda: m.get_structure_graph(bad))
        x.check(isinstance(e, hb.ConfigurationError), "an unknown variant is not refused properly", "%r: %r", bad, e)
    x.same(m.settings.get_structure(), variants, "looking at the structure changes it", case)
    # the items recorded are those of the bricks and processes shown
    if not case.startswith("grow") and hash_(case) % 4 == 0:
        simulate(x, m, names, types, needed(o), word=WORD[:3])
        want = set()
        for v in variants:
            for b in v["hydro_unit_bricks"]:
                want.add(b["name"])
        got = {lab.split(":")[0] for lab in m.get_recorded_labels()}
        splitters = {b["name"] for v in variants for b in v["hydro_unit_splitters"]}
        x.check(want <= got, "a brick shown is not recorded", "%s", sorted(want - got))
        x.check(got <= want | splitters | seen, "a brick recorded is not shown", "%s", sorted(got - want))


def check_forms(x, m, g, gn, ge, v, variants):
    """The other forms of the same graph"""
    d = g.to_dict()
    x.same((d["model"], d["solver"], d["structure_id"], d["n_structures"]), (type(m).__name__, m.solver, v["id"], len(variants)), "the description of the graph", "dict")
    x.same({n["name"]: (n["role"], n["kind"], n["level"], n["is_land_cover"], n["computed_directly"], tuple(n["forcing"])) for n in d["nodes"]}, gn, "to_dict", "nodes")
    x.same([tuple(e[k] for k in ("source", "target", "process", "kind", "flux_type", "instantaneous")) for e in d["edges"]], ge, "to_dict", "edges")
    x.same(json.loads(g.to_json()), d, "the JSON form is not the graph", "json")
    x.same(yaml.safe_load(g.to_yaml()), d, "the YAML form is not the graph", "yaml")
    check_drawing(x, g, gn, ge, [n for n in gn])
    # text: level -> component -> fluxes
    txt = g.to_text().split("\n")
    level, comp, said, comps = None, None, [], {}
    for line in txt:
        if line in ("Hydro unit:", "Sub-basin:"):
            level = {"H": "hydro_unit", "S": "sub_basin"}[line[0]]
        elif line.startswith("      <- "):
            x.same(line[9:].replace(" (forcing)", "").split(", "), list(gn[comp][5]), "the summary tells another forcing", comp)
        elif line.startswith("      "):
            t = re.fullmatch(r"      (?:(\S.*?) )?\((\S*)\) -> (.*?)(?: \[(\w+)\])?( \(instantaneous\))?", line)
            x.check(t is not None, "a line of the summary cannot be read", "%r", line)
            said.append((comp, t[3], t[1] or "", t[2], t[4] or "water", bool(t[5])))
        elif line.startswith("  "):
            t = re.fullmatch(r"  (.*?)(?: \((.*?)\))?(?:  \[(.*)\])?", line)
            comp = t[1]
            comps[comp] = (level, t[2] or "", tuple((t[3] or "").split(", ")) if t[3] else ())
    x.same(sorted(said), sorted(ge), "the summary is not the graph", "fluxes")
    want = {n: (a[2], a[1], tuple(k for k, f in (("land cover", a[3]), ("splitter", a[0] == "splitter"), ("direct", a[4])) if f))
            for n, a in gn.items() if a[2] and a[0] in ("brick", "splitter")}
    x.same(comps, want, "the summary is not the graph", "components")
    x.same(len([line for line in txt if "Bricks: " in line]), 1, "the summary has no totals", "totals")
    nums = [int(k) for k in re.findall(r": +(\d+)", [line for line in txt if "Bricks: " in line][0])]
    x.same(nums, [sum(a[0] == "brick" for a in gn.values()), sum(bool(e[2]) for e in ge), len(ge), len(gn)], "the totals of the summary", "totals")


def check_drawing(x, g, gn, ge, names):
    basin = {n for n, a in gn.items() if a[2] == "sub_basin"}
    for legend in (True, False):
        dot = g.to_dot(legend=legend, nodesep=0.25, ranksep=1.5, dpi=77)
        x.check("dpi=77" in dot and "nodesep=0.25" in dot and "ranksep=1.5" in dot, "the drawing ignores what it is told", "dot")
        lines = [k.strip() for k in dot.split("\n")]
        got_n, got_e, inside, in_basin = {}, [], False, set()
        for line in lines:
            t = re.fullmatch(r'"([^"]*)" \[(.*)\];', line)
            e = re.fullmatch(r'"([^"]*)" -> "([^"]*)" \[(.*)\];', line)
            if line.startswith("subgraph cluster_sub_basin"):
                inside = True
            elif line == "}":
                inside = False
            elif e:
                lab = re.search(r'label="([^"]*)"', e[3])
                col = re.search(r'(?<!\w)color="([^"]*)"', e[3])
                got_e.append((e[1], e[2], lab and lab[1], col and col[1], "dashed" in e[3]))
            elif t:
                x.check(t[1] not in got_n, "a node is drawn twice", "%s", t[1])
                got_n[t[1]] = t[2]
                if inside:
                    in_basin.add(t[1])
        x.same(sorted(got_n), sorted(list(gn) + (["__legend__"] if legend else [])), "the drawing has not the nodes of the graph", "dot")
        x.same(in_basin, basin, "the drawing puts a store at the wrong level", "dot")
        for n, a in gn.items():
            x.check('label="%s%s"' % (n, "\\n(%s)" % a[1] if a[1] else "") in got_n[n], "a node is drawn under another name", "%s: %s", n, got_n[n])
        x.same(sorted(got_e, key=repr), sorted([(e[0], e[1], e[2], COLORS.get(e[4]), e[5]) for e in ge], key=repr), "the drawing has not the fluxes of the graph", "dot")
        x.same(dot.count("{"), dot.count("}"), "the drawing is not closed", "dot")
    had, gv = hstruct.HAS_GRAPHVIZ, getattr(hstruct, "graphviz", None)
    hstruct.HAS_GRAPHVIZ, hstruct.graphviz = True, Viz
    try:
        for legend, path in ((True, "some/path"), (False, None)):
            dg = g.plot(path=path, fmt="pdf", legend=legend, dpi=99)
            x.same(dg.format, "pdf", "the plot ignores what it is told", "format")
            x.same([p for p, _ in dg.rendered], [path] if path else [], "the plot writes what it was not asked to", "render")
            drawn = dict(dg.nodes)
            for sub in dg.subs:
                x.same(set(sub.nodes), basin, "the plot puts a store at the wrong level", "plot")
                drawn.update(sub.nodes)
            x.same(sorted(drawn), sorted(list(gn) + (["__legend__"] if legend else [])), "the plot has not the nodes of the graph", "plot")
            x.same(sorted(((a, b, k.get("label"), k.get("color"), k.get("style") == "dashed") for a, b, k in dg.edges), key=repr),
                   sorted(((e[0], e[1], e[2], COLORS.get(e[4]), e[5]) for e in ge), key=repr), "the plot has not the fluxes of the graph", "plot")
        hstruct.HAS_GRAPHVIZ = False
        e = refused(lambda: g.plot())
        x.check(isinstance(e, hb.DependencyError), "the missing library is not told", "%r", e)
    finally:
        hstruct.HAS_GRAPHVIZ, hstruct.graphviz = had, gv


# ------------------------------------------------------------------------------------------------- entry points
def cases(tier):
    full = tier == "thorough"
    yield from grow_cases(full)
    yield from same_cases(full)
    yield from graph_cases(full)
    yield from wrong_cases(full)
    yield from order_cases(full)
    yield from fit_cases(full)


def run(case, x):
    g = case.split("/")[0]
    x.dim(g)
    {"same": lambda: run_same(case[5:], x), "grow": lambda: run_grow(case, x), "wrong": lambda: run_wrong(case[6:], x), "order": lambda: run_order(case[6:], x), "graph": lambda: run_graph(case[6:], x),
     "fit": lambda: run_fit(case[4:], x)}[g]()
    x.ok()
