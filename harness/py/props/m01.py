"""M01: every shipped model is assembled exactly as its documentation describes, for every combination of options."""
import json

import yaml

import hydrobricks as hb
import hydrobricks.models as models

from props.common import *
from pyexplore import Fail

W, S, I = "water", "snow", "ice"
FORC = {"melt:degree_day": ("temperature",), "melt:degree_day_aspect": ("temperature",),
        "melt:temperature_index": ("temperature", "solar_radiation"), "melt:cemaneige": ("temperature",)}


class V:
    """One structure variant, as documented."""

    def __init__(self):
        self.bricks, self.procs, self.split = {}, set(), set()

    def brick(self, name, kind="storage", parent=None, attach="hydro_unit", direct=False):
        self.bricks[name] = (kind, parent, attach, direct)

    def proc(self, brick, name, kind, *to, forcing=()):
        self.procs.add((brick, name, kind, tuple(sorted(to)), tuple(sorted(forcing))))


def out(target, what=W, inst=False, static=False):
    return (target, what, inst, static)


def base(covers, melt, *, snow=True, split=None, ice=None, slide=None, subl=None, ret=None, refr=None, rts=False,
         canopy=False):
    """What the snow routine and the precipitation splitters add for the land covers of a variant."""
    v = V()
    soil = {"open", "ground", "generic", "generic_land_cover", "forest", "lake"}
    for n, t in covers:
        v.brick(n, "generic_land_cover" if t in soil else t)
    rain = {n: (n + "_snowpack" if snow and rts else n) for n, t in covers}
    if canopy:
        for n, t in covers:
            if t == "forest":
                v.brick(n + "_canopy", "interception_storage", n)
                v.proc(n + "_canopy", "throughfall", "outflow:threshold", out(rain[n]))
                v.proc(n + "_canopy", "interception_et", "et:open_water", forcing=["pet"])
                rain[n] = n + "_canopy"
    if snow:
        k = split or ("snow_rain:cemaneige" if melt == "melt:cemaneige" else "snow_rain:linear")
        f = ["precipitation", "temperature"] + (["temperature_min", "temperature_max"] if k == "snow_rain:cemaneige" else [])
        v.split.add(("snow_rain_transition", k, (("rain_splitter", W), ("snow_splitter", S)), tuple(sorted(f))))
        v.split.add(("snow_splitter", "multi_fluxes", tuple(sorted((n + "_snowpack", S) for n, t in covers)), ()))
        for n, t in covers:
            p = n + "_snowpack"
            v.brick(p, "snowpack", n)
            v.proc(p, "melt", melt, out(p if ret else n, W, bool(ret)), forcing=FORC[melt])
            if ret:
                v.proc(p, "meltwater", ret, out(n))
            if refr:
                v.proc(p, "refreeze", refr, out(p, S, True), forcing=["temperature"])
            if ice and t == "glacier":
                v.proc(p, "snow_ice_transfo", ice, out(n, I))
            if slide:
                v.proc(p, "snow_redistribution", slide, out("lateral", S, True), forcing=["temperature"] if slide.endswith("_dynamic") else [])
            if subl:
                v.proc(p, "sublimation", subl, forcing=["pet"] if subl == "sublimation:pet" else [])
    else:
        v.split.add(("rain", "rain", (("rain_splitter", W),), ("precipitation",)))
    v.split.add(("rain_splitter", "multi_fluxes", tuple(sorted((rain[n], W) for n, t in covers)), ()))
    return v


def glacier_reservoirs(v):
    for n in ("glacier_area_rain_snowmelt_storage", "glacier_area_icemelt_storage"):
        v.brick(n, attach="sub_basin")
        v.proc(n, "outflow", "outflow:linear", out("outlet"))


def glacier_cover(v, n, melt):
    v.proc(n, "outflow_rain_snowmelt", "outflow:direct", out("glacier_area_rain_snowmelt_storage", W, True, True))
    v.proc(n, "melt", melt, out("glacier_area_icemelt_storage", W, True), forcing=FORC[melt])


def glacier_variants(covers, make):
    ice = [c for c in covers if c[1] == "glacier"]
    rest = [c for c in covers if c[1] != "glacier"]
    vs = [make(rest)] if rest or not ice else []
    if ice:
        for v in vs:
            glacier_reservoirs(v)
        v = make(covers)
        glacier_reservoirs(v)
        vs.append(v)
    return vs


def socont(o, covers):
    def make(cs):
        v = base(cs, o["snow_melt_process"], ice=o["snow_ice_transformation"], slide=o["snow_redistribution"],
                 subl=o["snow_sublimation_process"])
        soil = next(n for n, t in cs if t != "glacier")
        v.proc(soil, "infiltration", "infiltration:socont", out("slow_reservoir"))
        v.proc(soil, "runoff", "outflow:rest", out("surface_runoff", W, False, True))
        v.brick("slow_reservoir")
        v.proc("slow_reservoir", "et", "et:socont", forcing=["pet"])
        v.proc("slow_reservoir", "outflow", "outflow:linear", out("outlet"))
        v.proc("slow_reservoir", "overflow", "overflow", out("outlet"))
        if o["soil_storage_nb"] == 2:
            v.proc("slow_reservoir", "percolation", "percolation:constant", out("slow_reservoir_2"))
            v.brick("slow_reservoir_2")
            v.proc("slow_reservoir_2", "outflow", "outflow:linear", out("outlet"))
        v.brick("surface_runoff")
        v.proc("surface_runoff", "runoff", {"socont_runoff": "runoff:socont", "linear_storage": "outflow:linear"}[
            o["surface_runoff"]], out("outlet"))
        for n, t in cs:
            if t == "glacier":
                glacier_cover(v, n, o["snow_melt_process"])
        return v
    return glacier_variants(covers, make)


def hbv(o, covers):
    def make(cs):
        v = base(cs, o["snow_melt_process"], split=o["snow_rain_process"], slide=o["snow_redistribution"],
                 subl=o["snow_sublimation_process"], ret=o["snow_water_retention_process"],
                 refr=o["snow_refreezing_process"], rts=o["rain_to_snowpack"], canopy=o["forest_interception"])
        soils = [n for n, t in cs if t != "glacier"]
        one = o["share_soil"] or len(soils) == 1
        name = {n: "soil_moisture" if one else n + "_soil_moisture" for n in soils}
        for n in soils:
            v.proc(n, "infiltration", "infiltration:hbv", out(name[n]))
            v.proc(n, "recharge", "outflow:rest", out("upper_zone", W, False, True))
        for s in set(name.values()):
            v.brick(s)
            v.proc(s, "et", "et:hbv", forcing=["pet"])
            v.proc(s, "overflow", "overflow", out("routing"))
        v.brick("upper_zone")
        v.proc("upper_zone", "capillary", "capillary:hbv", *[out(s) for s in set(name.values())])
        v.proc("upper_zone", "percolation", "percolation:constant", out("lower_zone"))
        v.proc("upper_zone", "runoff", "runoff:hbv", out("routing"))
        v.brick("lower_zone")
        v.proc("lower_zone", "outflow", "outflow:linear", out("routing"))
        v.brick("routing")
        v.proc("routing", "routing", "routing:hbv", out("outlet"))
        for n, t in cs:
            if t == "glacier":
                glacier_cover(v, n, o["snow_melt_process"])
        return v
    lakes = [c for c in covers if c[1] == "lake"]
    vs = glacier_variants([c for c in covers if c[1] != "lake"], make)
    if lakes:
        v = base(lakes, None, snow=False)
        for n, t in lakes:
            v.proc(n, "outflow", "outflow:direct", out(n + "_storage", W, True, True))
            v.brick(n + "_storage")
            v.proc(n + "_storage", "et", "et:open_water", forcing=["pet"])
            v.proc(n + "_storage", "outflow", "outflow:linear", out("outlet"))
        vs.append(v)
    return vs


def gr(o, covers, routing):
    melt = o["snow_melt_process"]
    v = base(covers, melt, snow=melt is not None, split=o["snow_rain_process"], slide=o["snow_redistribution"],
             subl=o["snow_sublimation_process"])
    n, d = covers[0][0], o["discrete"]
    v.proc(n, "interception", "interception:gr4j", forcing=["pet"])
    v.proc(n, "throughfall", "outflow:rest", out("production_store" if d else n + "_soil", W, True, True))
    v.brick("production_store", direct=d)
    v.proc("production_store", "et", "et:gr4j", forcing=["pet"])
    v.brick("uh_input", direct=d)
    v.proc("uh_input", "routing", routing, out("outlet"))
    if d:
        v.proc("production_store", "production", "production:gr4j", out("uh_input"), forcing=["pet"])
    else:
        v.brick(n + "_soil")
        v.proc(n + "_soil", "production", "infiltration:gr4j", out("production_store"))
        v.proc(n + "_soil", "runoff", "outflow:rest", out("uh_input", W, False, True))
        v.proc("production_store", "percolation", "percolation:gr4j", out("uh_input"))
    return [v]


def actual(s):
    v = V()
    order = []
    for b in s["hydro_unit_bricks"] + s["sub_basin_bricks"]:
        if b["name"] in v.bricks:
            raise Fail("duplicate", "brick %s twice" % b["name"])
        v.bricks[b["name"]] = (b["kind"], b["parent"] or None, b["attach"], b["computed_directly"])
        order.append(b["name"])
        for p in b["processes"]:
            v.procs.add((b["name"], p["name"], p["kind"], tuple(sorted((o["target"], o["flux_type"], o["instantaneous"],
                         o["static"]) for o in p["outputs"])), tuple(sorted(p["forcing"]))))
    for p in s["hydro_unit_splitters"] + s["sub_basin_splitters"]:
        v.split.add((p["name"], p["kind"], tuple(sorted((o["target"], o["flux_type"]) for o in p["outputs"])),
                     tuple(sorted(p["forcing"]))))
    return v, order


BAD = [
    ("socont", dict(soil_storage_nb=3)), ("socont", dict(soil_storage_nb=0)), ("socont", dict(surface_runoff="quick")),
    ("socont", dict(no_such_option=1)), ("socont", dict(glacier_module="none")), ("socont", dict(cov=["open", "forest"])),
    ("socont", dict(cov=["open", "lake"])), ("socont", dict(cov=["urban"])),
    ("socont", dict(land_cover_names=["a", "b"], land_cover_types=["open"])),
    ("hbv96", dict(snow_water_retention_process=None)), ("hbv96", dict(cov=["lake"])), ("hbv96", dict(cov=["glacier"])),
    ("hbv96", dict(cov=["lake", "glacier"])), ("hbv96", dict(snow_melt_process="melt:temperature_index")),
    ("hbv96", dict(snow_water_retention_process=None, rain_to_snowpack=False)), ("hbv96", dict(soil_storage_nb=2)),
    ("hbv96", dict(snow_water_retention_process=None, snow_refreezing_process=None)), ("hbv96", dict(cov=["urban", "open"])),
    ("hbv96", dict(glacier_module="none")),
    ("gr4j", dict(cov=["glacier"])), ("gr4j", dict(cov=["open", "forest"])), ("gr4j", dict(discrete="yes")),
    ("gr4j", dict(discrete=1)), ("gr4j", dict(snow_melt_process="melt:any")), ("gr4j", dict(surface_runoff="socont_runoff")),
    ("gr6j", dict(cov=["lake"])), ("gr6j", dict(discrete=None)), ("gr6j", dict(snow_melt_process="degree_day")),
    ("gr6j", dict(share_soil=True)),
]


def cases(tier):
    full = tier == "thorough"
    yield from socont_cases(full)
    yield from hbv_cases(full)
    yield from gr_cases(full)
    yield from rule_cases()
    for i in range(len(BAD)):
        yield "bad/%d" % i


def run(case, x):
    if case.startswith("bad/"):
        m, kw = BAD[int(case[4:])]
        kw = dict(kw)
        if "cov" in kw:
            t = kw.pop("cov")
            kw.update(land_cover_types=t, land_cover_names=["c%d" % i for i in range(len(t))])
        cls = {"socont": models.Socont, "hbv96": models.HBV96, "gr4j": models.GR4J, "gr6j": models.GR6J}[m]
        x.step()
        x.state("bad", case)
        e = refused(lambda: cls(**kw))
        x.check(e is not None, "accepted", "%s(%r) is accepted although it is documented as unsupported", cls.__name__, kw)
        return
    cls, o, names, types = parse(case)
    covers = list(zip(names, types))
    model = cls(land_cover_names=list(names), land_cover_types=list(types), **o)
    if cls is models.Socont:
        want = socont(o, covers)
    elif cls is models.HBV96:
        want = hbv(o, covers)
    else:
        want = gr(o, covers, "routing:gr4j" if cls is models.GR4J else "routing:gr6j")
    got = model.settings.get_structure()
    x.same(len(got), len(want), "variants", "number of structure variants")
    for k, (g, w) in enumerate(zip(got, want)):
        a, order = actual(g)
        x.step(len(a.procs) + len(a.bricks))
        x.state(k, sorted(a.bricks.items(), key=str), sorted(a.procs, key=str), sorted(a.split, key=str))
        for what in ("bricks", "procs", "split"):
            gs, ws = getattr(a, what), getattr(w, what)
            gs, ws = (set(gs.items()), set(ws.items())) if what == "bricks" else (gs, ws)
            x.check(gs == ws, what, "variant %d: %s: missing %s, unexpected %s", k + 1, what, sorted(ws - gs, key=str),
                    sorted(gs - ws, key=str))
        # the complement of an infiltration comes after it, and water between stores flows to later stores
        for b in g["hydro_unit_bricks"]:
            kinds = [p["kind"] for p in b["processes"]]
            if "outflow:rest" in kinds:
                x.check(kinds.index("outflow:rest") == len(kinds) - 1, "rest-first", "%s: %s", b["name"], kinds)
            if b["kind"] == "storage":
                for p in b["processes"]:
                    for t in p["outputs"]:
                        if t["target"] in order:
                            x.check(order.index(t["target"]) > order.index(b["name"]), "backwards", "variant %d: %s -> %s",
                                    k + 1, b["name"], t["target"])
    # the covers of the model object itself are those asked for
    x.same((model.land_cover_names, model.land_cover_types), (names, types), "covers", "the land covers of the model")
    # the files that describe the model give the same model again
    d = x.dir()
    model.create_config_file(d, "m", "both")
    with open(d + "/m.json") as f:
        a = json.load(f)
    with open(d + "/m.yaml") as f:
        b = yaml.safe_load(f)
    x.same(a, b, "config", "the two description files")
    x.same(a["base"], model.name, "config", "name in the description")
    kind = {"socont": models.Socont, "hbv-96": models.HBV96, "hbv96": models.HBV96, "gr4j": models.GR4J, "gr6j": models.GR6J}[a["base"]]
    again = kind(solver=a["solver"], record_all=a["logger"] == "all", land_cover_names=a["land_covers"]["names"],
                 land_cover_types=a["land_covers"]["types"], **a["options"])
    x.check(type(again) is cls and again.solver == model.solver, "config", "solver and kind of the model of the description")
    x.check(again.settings.get_structure() == got, "config", "the model of the description has another structure")
