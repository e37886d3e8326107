"""M08: the units of a model are those of the tables it was given: areas, covers, elevations, properties, connections."""
import datetime

import pandas as pd

from props.common import *
import hydrobricks._hydrobricks as core
import hydrobricks.hydro_units as mod
from hydrobricks._units import Unit, convert_unit, get_unit_enum

REAL = core.SettingsBasin


class Recorder(REAL):
    """The settings of the core, that also remember what they were told."""

    def __init__(self):
        super().__init__()
        self.units, self.links = [], []

    def clear(self):
        self.units = []
        super().clear()

    def add_hydro_unit(self, id, area, elevation=-9999):
        self.units.append(dict(id=id, area=area, z=elevation, num={}, txt={}, covers={}))
        super().add_hydro_unit(id, area, elevation)

    def add_land_cover(self, name, kind, fraction):
        self.units[-1]["covers"][name] = (kind, fraction)
        super().add_land_cover(name, kind, fraction)

    def add_hydro_unit_property_double(self, name, value, unit):
        self.units[-1]["num"][name] = (value, unit)
        super().add_hydro_unit_property_double(name, value, unit)

    def add_hydro_unit_property_str(self, name, value):
        self.units[-1]["txt"][name] = value
        super().add_hydro_unit_property_str(name, value)

    def add_lateral_connection(self, giver_hydro_unit_id, receiver_hydro_unit_id, fraction, type=""):
        self.links.append((giver_hydro_unit_id, receiver_hydro_unit_id, fraction))
        super().add_lateral_connection(giver_hydro_unit_id, receiver_hydro_unit_id, fraction, type)


def recording(f):
    mod.SettingsBasin = Recorder
    try:
        return f()
    finally:
        mod.SettingsBasin = REAL


# every documented spelling of a unit
SPELL = {"NO_UNIT": ["-", ""], "MM": ["mm", "millimeter"], "M": ["m", "meter"], "KM": ["km", "kilometer"],
         "M2": ["m2", "m^2", "m**2", "square meter"], "KM2": ["km2", "km^2", "km**2", "square kilometer"],
         "DEG": ["deg", "degree", "degrees"], "YEAR": ["year", "years"], "MONTH": ["month", "months"], "DAY": ["day", "days"],
         "H": ["h", "hour", "hours"], "S": ["s", "second", "seconds"],
         "MM_D": ["mm/d", "mm/day", "mm_d", "mm_day", "millimeter per day"],
         "MM_H": ["mm/h", "mm/hour", "mm_h", "mm_hour", "millimeter per hour"],
         "M_S": ["m/s", "m/second", "m_s", "m_second", "meter per second"], "C": ["°C", "C", "celsius"],
         "K": ["°K", "K", "kelvin"], "PC": ["%", "percent"], "FRAC": ["frac", "fraction"],
         "MJ_M2_D": ["MJ/m2/d", "MJ/m2/day", "MJ_m2_d", "MJ_m2_day"],
         "W_M2": ["W/m2", "W_m2", "W/m^2", "W/m**2", "Watt per square meter"], "KPA": ["kPa", "kilopascal"]}
WRAP = ["%s", "[%s]", "(%s)", "{%s}", "<%s>", " %s", "%s ", " [ %s ] ", "([%s])"]
SIZE = {"MM": ("length", 1e-3), "M": ("length", 1.0), "KM": ("length", 1e3), "M2": ("area", 1.0), "KM2": ("area", 1e6),
        "DAY": ("time", 86400.0), "H": ("time", 3600.0), "S": ("time", 1.0), "MM_D": ("rate", 1 / 24.0), "MM_H": ("rate", 1.0)}
AREA = {"m2": 1.0, "m^2": 1.0, "m**2": 1.0, "square meter": 1.0, "[m2]": 1.0, " m2": 1.0, "km2": 1e6, "km^2": 1e6, "km**2": 1e6,
        "square kilometer": 1e6, "(km2)": 1e6}
HEIGHT = ["m", "meter", "[m]", "(m)", "km"]
SLOPE = ["deg", "degree", "degrees", "[degrees]", "%"]
DEGREES = ("deg", "degree", "degrees", "°")
IDS = {"s": lambda k, n: k + 1, "r": lambda k, n: n - k, "x": lambda k, n: (k * 7919 + 13) % 100003 + 2, "0": lambda k, n: k * 10}
NUMBER = {"i": "%d", "f": "%.4f", "e": "%.6e"}
C8 = {"o": COVERS["o"], "n": COVERS["n"], "og": COVERS["og"], "gog": COVERS["gog"], "of": COVERS["of"], "ofgl": COVERS["ofgl"]}


def heights(kind, n):
    if kind.isdigit():                       # a permutation of n heights
        return [600.0 + 310 * int(c) for c in kind]
    return {"e": [1500.0] * n, "h": [1000.0 + 100 * (k // 2) for k in range(n)], "n": [-50.0 * k for k in range(n)],
            "d": [900.5 + 0.25 * ((k * 5) % n) for k in range(n)], "z": [0.0 for k in range(n)],
            "b": [8000.0 + ((k * 3) % n) for k in range(n)]}[kind]


def cases(tier):
    full = tier == "thorough"
    for u in SPELL:
        yield "unit/%s" % u
    for a in SPELL:
        yield "conv/%s" % a
    perms4 = ["".join(p) for p in itertools.permutations("0123")]
    # the elevations of the units in every order, ties
    for cov in C8:
        for z in perms4 + ["e", "h", "n", "d", "z", "b"] + (["".join(p) for p in itertools.permutations("01234")] if full else []):
            for ids in IDS:
                n = len(z) if z.isdigit() else 4
                yield "csv/%s.a.%s.%s.%d.m2.m.degrees.f.0" % (cov, z, ids, n)
    # spellings of the units of the columns, numbers, orders of the columns
    for cov in C8:
        for mode in "as":
            if mode == "s" and len(C8[cov][0]) > 1:
                continue
            for au, hu, su, num in itertools.product(AREA, HEIGHT, SLOPE, NUMBER):
                if not full and hu != "m" and su != "deg":
                    continue
                yield "csv/%s.%s.2031.x.4.%s.%s.%s.%s.0" % (cov, mode, au.replace(" ", "~"), hu, su, num)
            for order in range(120 if full else 24):
                yield "csv/%s.%s.1302.r.4.km2.m.deg.f.%d" % (cov, mode, order * (1 if full else 5))
            for n in (1, 2, 3, 11, 12, 13, 40, 150):
                for ids in IDS:
                    yield "csv/%s.%s.b.%s.%d.m2.m.deg.f.0" % (cov, mode, ids, n)
    for w in range(14):
        yield "refuse/%d" % w
    # what is done to the units afterwards
    ops = "pqABzcdeCP"
    for n in range(1, 5 if not full else 6):
        for w in itertools.product(ops, repeat=n):
            if n >= 4 and (w[-1] in "pqABC" or len(set(w)) < n - (1 if full else 0)):
                continue
            yield "seq/" + "".join(w)
    # connections of every shape between up to 4 units
    for n in (2, 3, 4):
        pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
        for mask in range(1, 1 << len(pairs)):
            if n == 4 and not full and bin(mask).count("1") > 3:
                continue
            for form in "dscf":
                if form != "d" and mask % 7 and not full:
                    continue
                yield "con/%d.%d.%s" % (n, mask, form)
    for w in range(13):
        yield "conrefuse/%d" % w
    for cov in C8:
        for z in ("0123", "3120", "e"):
            yield "save/%s.%s" % (cov, z)
        for m in ("socont", "hbv") if cov != "ofgl" else ():       # a lake fills its unit
            for z in perms4 if full else perms4[::3] + ["e", "d"]:
                yield "model/%s.%s.%s" % (m, cov, z)
    for k in range(8):
        yield "data/%d" % k


class Table:
    """A file of units, and what it says."""

    def __init__(self, cov, mode, z, ids, n, au, hu, su, num):
        self.names, self.types = (list(t) for t in C8[cov])
        self.mode, self.au, self.hu, self.su, self.num = mode, au, hu, su, NUMBER[num]
        big = 1.0 if AREA[au] == 1e6 else 1e5
        self.rows = []
        for k, h in enumerate(heights(z, n)):
            ar = {}
            for j, c in enumerate(self.names):
                a = ((k * 3 + j * 5 + 1) % 7) * big
                if j == 0 and not a:
                    a = 2 * big
                ar[c] = a
            if mode == "s":
                ar = {self.names[0]: (k % 5 + 1) * big}
            self.rows.append(dict(id=IDS[ids](k, n), z=h / (1000.0 if hu == "km" else 1.0), slope=float((k * 17) % 60),
                                  asp="NSEW"[k % 4], areas=ar))

    def write(self, path, order=0):
        acols = ["a_" + c for c in self.names] if self.mode == "a" else ["area"]
        cols = ["id", "elevation", "slope", "aspect_class", "A"]
        cols = list(itertools.islice(itertools.permutations(cols), order, order + 1))[0]
        num = self.num if self.hu != "km" else "%.6f"
        with open(path, "w") as f:
            head, unit = [], []
            for c in cols:
                if c == "A":
                    head += acols
                    unit += [self.au] * len(acols)
                else:
                    head.append(c)
                    unit.append({"id": "-", "elevation": self.hu, "slope": self.su, "aspect_class": "-"}[c])
            f.write(",".join(head) + "\n" + ",".join(unit) + "\n")
            for r in self.rows:
                out = []
                for c in cols:
                    if c == "A":
                        out += [self.num % a for a in r["areas"].values()]
                    else:
                        out.append({"id": "%d" % r["id"], "elevation": num % r["z"], "slope": self.num % r["slope"],
                                    "aspect_class": r["asp"]}[c])
                f.write(",".join(out) + "\n")

    def load(self, path, others=("slope", "aspect_class")):
        hu = recording(lambda: hb.HydroUnits(list(self.types), list(self.names)))
        kw = dict(columns_areas={c: "a_" + c for c in self.names}) if self.mode == "a" else {}
        hu.load_from_csv(path, other_columns={c: c for c in others}, **kw)
        return hu

    def expected(self):
        out = {}
        for r in self.rows:
            tot = sum(r["areas"].values())
            z = float(("%d" if self.num == "%d" and self.hu != "km" else "%.6f") % r["z"])
            out[r["id"]] = dict(area=tot * AREA[self.au], z=z,
                                frac={c: r["areas"].get(c, 0.0) / tot for c in self.names}, slope=r["slope"], asp=r["asp"])
        return out


def compare(x, hu, want, names, types, key, slope=True):
    """The units the core was told about are the expected ones, from the highest to the lowest."""
    got = hu.settings.units
    x.step(len(got))
    x.same(sorted(g["id"] for g in got), sorted(want), key, "ids of the units")
    zs = [g["z"] for g in got]
    x.check(all(a >= b for a, b in zip(zs, zs[1:])), key, "elevations of the units are not in descending order: %s", zs)
    for g in got:
        w = want[g["id"]]
        x.close(g["area"], w["area"], 1e-9, key, "area of unit %d" % g["id"])
        x.close(g["z"], w["z"], 1e-9, key, "elevation of unit %d" % g["id"])
        if "elevation" in g["num"]:
            x.close(g["num"]["elevation"][0], w["z"], 1e-9, key, "elevation property of unit %d" % g["id"])
        x.same(sorted(g["covers"]), sorted(names), key, "covers of unit %d" % g["id"])
        for c, t in zip(names, types):
            kind, f = g["covers"][c]
            x.same(kind, t, key, "type of %s in unit %d" % (c, g["id"]))
            x.close(f, w["frac"][c], 1e-9, key, "fraction of %s in unit %d" % (c, g["id"]))
        if slope and "slope" in w:
            v, u = g["num"].get("slope", (None, None))
            x.check(v is not None and abs(v - w["slope"]) < 1e-9, key, "slope of unit %d: %r, expected %r", g["id"], v, w["slope"])
            if w.get("slope_unit", "deg") == "deg":
                x.check(u in DEGREES, key, "unit of the slope of unit %d: %r", g["id"], u)
            else:
                x.check(u not in DEGREES, key, "unit of the slope of unit %d: %r", g["id"], u)
        if slope and "asp" in w:
            x.same(g["txt"].get("aspect_class"), w["asp"], key, "aspect class of unit %d" % g["id"])
        x.state(g["id"], round(g["area"], 3), g["z"], tuple(sorted((c, round(f, 6)) for c, (t, f) in g["covers"].items())))


def run(case, x):
    kind, spec = case.split("/", 1)
    x.dim(kind)
    globals()["run_" + kind](spec, x)


def run_unit(u, x):
    x.same(get_unit_enum(u), Unit[u], "unit", "unit named %r" % u)
    for s in SPELL[u]:
        for w in WRAP:
            x.step()
            x.same(get_unit_enum(w % s), Unit[u], "unit", "unit %r" % (w % s))
            x.state(u, w % s)
    for bad in ("furlong", "mm2", "m3", "kmm", "meters per", "square", "mm / year", "Kelvins"):
        x.check(refused(lambda: get_unit_enum(bad)) is not None, "unit", "unknown unit %r is accepted", bad)


def run_conv(a, x):
    for b in SPELL:
        x.step()
        known = a in SIZE and b in SIZE and SIZE[a][0] == SIZE[b][0]
        for v in (0.0, 1.0, -3.5, 1234.5678):
            for fa, fb in ((Unit[a], Unit[b]), (SPELL[a][0], SPELL[b][-1])):
                out = []
                e = refused(lambda: out.append(convert_unit(v, fa, fb)))
                if a == b:
                    x.check(e is None, "conv", "conversion from %s to itself is refused", a)
                    x.same(out[0], v, "conv", "%s to itself" % a)
                elif known:
                    if e is None:        # a missing conversion is refused; one that is given is right
                        x.close(out[0], v * SIZE[a][1] / SIZE[b][1], 1e-12, "conv", "%g %s in %s" % (v, a, b))
                        x.state(a, b, v)
                else:
                    x.check(e is not None, "conv", "%g %s in %s gives %r", v, a, b, out)
        if (a, b) in (("M2", "KM2"), ("KM2", "M2"), ("MM", "M"), ("M", "MM"), ("KM", "M"), ("M", "KM"), ("H", "DAY"), ("DAY", "H")):
            x.check(refused(lambda: convert_unit(1.0, Unit[a], Unit[b])) is None, "conv", "conversion from %s to %s is refused", a, b)


def run_csv(spec, x):
    cov, mode, z, ids, n, au, hu_, su, num, order = spec.split(".")
    au = au.replace("~", " ")
    t = Table(cov, mode, z, ids, int(n), au, hu_, su, num)
    d = x.dir()
    p = os.path.join(d, "u.csv")
    t.write(p, int(order))
    box = []
    e = refused(lambda: box.append(t.load(p)))
    if hu_ == "km" and e is not None:
        x.ok()
        return
    if e is not None:
        raise Fail("csv", "the table is refused: %s: %s" % (type(e).__name__, e))
    hu, want = box[0], t.expected()
    if hu_ == "km":
        for w in want.values():
            w["z"] *= 1000.0
    for w in want.values():
        w["slope_unit"] = "pc" if su == "%" else "deg"
    compare(x, hu, want, t.names, t.types, "csv")
    x.same(hu.get_hydro_unit_count(), len(want), "csv", "number of units")
    x.same([int(v) for v in np.asarray(hu.get_ids()).flatten()], [r["id"] for r in t.rows], "csv", "get_ids")
    for c in ("id", "area", "elevation", "slope", "aspect_class"):
        x.check(hu.has(c), "csv", "has(%r) is false", c)
    x.check(not hu.has("aspect"), "csv", "has('aspect') is true")
    # the caller's other orders of the dictionary of columns change nothing
    if mode == "a" and len(t.names) > 1:
        hu2 = recording(lambda: hb.HydroUnits(list(t.types), list(t.names)))
        hu2.load_from_csv(p, columns_areas={c: "a_" + c for c in reversed(t.names)}, column_elevation="elevation",
                          other_columns={"aspect_class": "aspect_class", "slope": "slope"})
        if hu_ == "m":
            compare(x, hu2, want, t.names, t.types, "csv")


HEAD = "id,elevation,area,slope,a_open,a_glacier\n-,m,m2,deg,m2,m2\n"
BODY = "1,1000,100,10,60,40\n2,1500,200,20,150,50\n"


def run_refuse(w, x):
    d = x.dir()
    p = os.path.join(d, "u.csv")

    def load(text, types=("open", "glacier"), names=("open", "glacier"), **kw):
        with open(p, "w") as f:
            f.write(text)
        hb.HydroUnits(list(types), list(names)).load_from_csv(p, **kw)
    A = dict(columns_areas={"open": "a_open", "glacier": "a_glacier"})
    ok = [lambda: load(HEAD + BODY, **A), lambda: load(HEAD + BODY, ("open",), ("open",)),
          lambda: load(HEAD + BODY, other_columns={"slope": "slope"}, **A)]
    bad = [lambda: load(HEAD.replace("id,", "uid,") + BODY, **A),
           lambda: load(HEAD.replace("elevation", "height") + BODY, **A),
           lambda: load(HEAD.replace(",area,", ",surface,") + BODY, ("open",), ("open",)),
           lambda: load(HEAD + BODY, column_area="area", **A),
           lambda: load(HEAD + BODY, columns_areas={"open": "a_open"}),
           lambda: load(HEAD + BODY, columns_areas={"open": "a_open", "ice": "a_glacier"}),
           lambda: load(HEAD + BODY, columns_areas={"open": "a_open", "glacier": "a_nothing"}),
           lambda: load(HEAD.replace("deg,m2,m2", "deg,m2,km2") + BODY, **A),
           lambda: load(HEAD.replace("-,m,m2", "-,m,acres") + BODY, ("open",), ("open",)),
           lambda: load(HEAD.replace("m2,m2\n", "mm,mm\n") + BODY, **A),
           lambda: load(HEAD + BODY, other_columns={"slope": "nothing"}, **A),
           lambda: hb.HydroUnits(["open"], None),
           lambda: hb.HydroUnits(["open", "glacier"], ["open"]),
           lambda: hb.HydroUnits(None, ["open"])]
    for f in ok:
        x.step()
        e = refused(f)
        x.check(e is None, "refuse", "a complete table is refused: %s", e)
    x.step()
    x.check(refused(bad[int(w)], AssertionError) is not None, "refuse", "incomplete or contradictory table %s is accepted", w)


def run_seq(w, x):
    t = Table("og", "a", "1203", "x", 4, "m2", "m", "deg", "f")
    for r in t.rows:                         # no glacier to begin with
        r["areas"]["open"] += r["areas"]["glacier"]
        r["areas"]["glacier"] = 0.0
    p = os.path.join(x.dir(), "u.csv")
    t.write(p)
    mine = (list(t.types), list(t.names))
    hu = recording(lambda: hb.HydroUnits(*mine))
    hu.load_from_csv(p, columns_areas={c: "a_" + c for c in t.names})
    want = t.expected()
    for v in want.values():
        del v["slope"], v["asp"]
    names, types = list(t.names), list(t.types)
    links, told, slope = [], {k: dict(v, frac=dict(v["frac"])) for k, v in want.items()}, set()
    told_names = list(names), list(types)
    order = [r["id"] for r in t.rows]
    for k, op in enumerate(w):
        x.step()
        if op in "pq":
            if op in slope:
                continue
            slope.add(op)
            if op == "p":
                hu.add_property(("slope", "deg"), np.array([3.0 * i + 1 for i in range(4)]))
                for i, u in enumerate(order):
                    want[u]["slope"] = 3.0 * i + 1
            else:
                hu.add_property(("aspect_class", "-"), np.array(["N", "S", "E", "W"]))
                for i, u in enumerate(order):
                    want[u]["asp"] = "NSEW"[i]
        elif op in "AB":
            name, ty = ("forest", "forest") if op == "A" else ("debris", "glacier")
            e = refused(lambda: hu.add_land_cover(name, ty))
            if name in names:
                x.check(e is not None, "cover", "cover %s is added twice", name)
            else:
                x.check(e is None, "cover", "cover %s is refused: %s", name, e)
                names.append(name)
                types.append(ty)
                for u in want.values():
                    u["frac"][name] = 0.0
        elif op == "z":
            hu.initialize_land_cover_fractions()
            for u in want.values():
                u["frac"] = {c: float(c == "open") for c in names}
        elif op in "cde":
            cover = {"c": "glacier", "d": "debris", "e": "forest"}[op]
            if cover not in names:
                continue
            sel = {"c": [0, 2], "d": [1, 2, 3], "e": [3]}[op]
            rows = [(order[i], want[order[i]]["area"] * (0.05 + 0.1 * j)) for j, i in enumerate(sel)]
            again = any(want[u]["frac"][cover] for u, a in rows)
            df = pd.DataFrame({"hydro_unit": [r[0] for r in rows], "2000-01-01": [r[1] for r in rows]})
            e = refused(lambda: hu.initialize_from_land_cover_change(cover, df))
            if again:                        # applied twice: refused, or not; the extents are then not defined
                x.ok()
                return
            x.check(e is None, "change", "initial extent of %s refused: %s", cover, e)
            for u, a in rows:
                want[u]["frac"][cover] = a / want[u]["area"]
                want[u]["frac"]["open"] -= a / want[u]["area"]
        elif op == "C":
            con = [(order[0], {order[1]: 0.25, order[3]: 0.75}), (order[2], {order[1]: 1.0}), (order[1], {})]
            if links:
                continue
            hu.set_connectivity(pd.DataFrame({"id": [c[0] for c in con], "connectivity": [c[1] for c in con]}))
            links = [(a, b, f) for a, m in con for b, f in m.items()]
        elif op == "P":
            hu.populate_bounded_instance()
        if op in "cdeP":
            told = {k: dict(v, frac=dict(v["frac"])) for k, v in want.items()}
            told_names = list(names), list(types)
        compare(x, hu, told, told_names[0], told_names[1], "seq")
        x.same(sorted(hu.settings.links), sorted(links), "seq", "connections after %s" % w[:k + 1])
        x.same(hu.settings.get_lateral_connection_count(), len(links), "seq", "number of connections after %s" % w[:k + 1])
        for c in names:
            x.check(hu.has("fraction-" + c), "seq", "no fractions of %s", c)
    hu.populate_bounded_instance()
    compare(x, hu, want, names, types, "seq")
    x.same(mine, (list(t.types), list(t.names)), "alias", "the caller's lists of covers after %s" % w)
    x.same(hu.get_generic_cover_name(), "open", "seq", "generic cover")


def basic(x, n, cov="o"):
    t = Table(cov, "a", "3120"[:n] if n == 4 else "".join(str((k * 2) % n) for k in range(n)), "x", n, "m2", "m", "deg", "f")
    p = os.path.join(x.dir(), "u.csv")
    t.write(p)
    return t, t.load(p)


def run_con(spec, x):
    n, mask, form = spec.split(".")
    n, mask = int(n), int(mask)
    t, hu = basic(x, n)
    ids = [r["id"] for r in t.rows]
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    out = {i: [j for k, (a, j) in enumerate(pairs) if a == i and mask >> k & 1] for i in range(n)}
    want = {}
    for i, js in out.items():
        s = sum(k + 1 for k in range(len(js)))
        want[ids[i]] = {ids[j]: (k + 1) / s for k, j in enumerate(js)}
    if form == "d":
        con = pd.DataFrame({"id": list(want), "connectivity": list(want.values())})
    elif form == "s":                        # text, as read from a file
        con = pd.DataFrame({"id": list(want), "connectivity": [repr(v) for v in want.values()]})
    elif form == "f":                        # as made by the preprocessing: two-line header
        con = pd.DataFrame({("id", "-"): list(want), ("connectivity", "-"): list(want.values())})
        con.columns = pd.MultiIndex.from_tuples([("id", "-"), ("connectivity", "-")])
    else:
        con = os.path.join(x.dir(), "c.csv")
        with open(con, "w") as f:
            f.write("id,connectivity\n-,-\n")
            for k, v in want.items():
                f.write('%d,"%r"\n' % (k, v))
    hu.set_connectivity(con)
    x.step(n)
    got = {}
    for a, b, f in hu.settings.links:
        x.check(b not in got.setdefault(a, {}), "con", "unit %d is connected twice to %d", a, b)
        got[a][b] = f
    x.same({a: sorted(v) for a, v in got.items()}, {a: sorted(v) for a, v in want.items() if v}, "con", "connections")
    for a in got:
        for b in got[a]:
            x.close(got[a][b], want[a][b], 1e-12, "con", "share of %d -> %d" % (a, b))
    x.state(n, mask)


def run_conrefuse(w, x):
    t, hu = basic(x, 3)
    a, b, c = (r["id"] for r in t.rows)
    bad = [{b: 0.5}, {b: 0.5, c: 0.6}, {b: 1.2, c: -0.2}, {a: 1.0}, {a: 0.5, b: 0.5}, {99: 1.0}, {b: 0.5, 99: 0.5}, {b: 0.0},
           {b: -1.0, c: 2.0}, {b: 0.99}, {b: 1.01}]
    k = int(w)
    if k < len(bad):
        con = pd.DataFrame({"id": [a], "connectivity": [bad[k]]})
    elif k == 11:
        con = pd.DataFrame({"id": [98], "connectivity": [{b: 1.0}]})
    else:
        con = pd.DataFrame({"unit": [a], "connectivity": [{b: 1.0}]})
    x.step()
    x.check(refused(lambda: hu.set_connectivity(con)) is not None, "conrefuse", "connectivity %s is accepted", w)
    t, hu = basic(x, 3)
    hu.set_connectivity(pd.DataFrame({"id": [a, b], "connectivity": [{b: 0.5, c: 0.5}, {c: 1.0}]}))
    x.same(len(hu.settings.links), 3, "conrefuse", "number of connections")


def run_save(spec, x):
    cov, z = spec.split(".")
    t = Table(cov, "a", z, "x", 4, "km2", "m", "deg", "f")
    d = x.dir()
    p = os.path.join(d, "u.csv")
    t.write(p)
    hu = t.load(p)
    want = t.expected()
    from netCDF4 import Dataset
    hu.save_as(os.path.join(d, "u.nc"))
    nc = Dataset(os.path.join(d, "u.nc"), "r")
    ids = [int(v) for v in np.asarray(nc["id"][:]).flatten()]
    x.same(sorted(ids), sorted(want), "save", "ids in the file")
    names = nc.land_cover_names
    x.same([names] if isinstance(names, str) else list(names), t.names, "save", "covers in the file")
    for k, i in enumerate(ids):
        x.step()
        x.close(float(np.asarray(nc["area"][:]).flatten()[k]), want[i]["area"], 1e-6, "save", "area of %d in the file" % i)
        x.close(float(np.asarray(nc["elevation"][:]).flatten()[k]), want[i]["z"], 1e-6, "save", "elevation of %d in the file" % i)
        for c, ty in zip(t.names, t.types):
            x.close(float(np.asarray(nc[c][:]).flatten()[k]), want[i]["frac"][c], 1e-6, "save", "fraction of %s" % c)
            x.same(nc[c].type, ty, "save", "type of %s" % c)
    x.same(nc["area"].units, "m2", "save", "unit of the areas")
    x.same(nc["elevation"].units, "m", "save", "unit of the elevations")
    nc.close()
    # the units saved as text are read back as they were
    q = os.path.join(d, "v.csv")
    hu.save_to_csv(q)
    back = recording(lambda: hb.HydroUnits(["open"], ["open"]))
    back.load_from_csv(q, other_columns=dict({"slope": "slope", "aspect_class": "aspect_class"}, **{"f_" + c: "fraction-" + c for c in t.names}))
    got = {g["id"]: g for g in back.settings.units}
    x.same(sorted(got), sorted(want), "save", "ids read back")
    for i, w in want.items():
        x.close(got[i]["area"], w["area"], 1e-9, "save", "area read back")
        x.close(got[i]["z"], w["z"], 1e-9, "save", "elevation read back")
        x.close(got[i]["num"]["slope"][0], w["slope"], 1e-9, "save", "slope read back")
        x.same(got[i]["txt"]["aspect_class"], w["asp"], "save", "aspect read back")
        for c in t.names:
            x.close(got[i]["num"]["f_" + c][0], w["frac"][c], 1e-9, "save", "fraction of %s read back" % c)


def run_model(spec, x):
    """A model run on the table is the one run on settings filled by hand, unit by unit."""
    m, cov, z = spec.split(".")
    t = Table(cov, "a", z, "x", 4, "km2", "m", "deg", "f")
    if m == "socont" and set(t.types) & {"forest", "lake"}:
        return
    d = x.dir()
    p = os.path.join(d, "u.csv")
    t.write(p)
    cls = {"socont": models.Socont, "hbv": models.HBV96}[m]
    o = dict(snow_melt_process="melt:degree_day_aspect", snow_redistribution="transport:snow_slide")
    if m == "hbv":
        o["snow_refreezing_process"] = None
    want = t.expected()
    rows = sorted(t.rows, key=lambda r: -r["z"])
    links = [(a["id"], b["id"], 1.0) for a, b in zip(rows, rows[1:]) if a["z"] > b["z"]]
    out = []
    for by_hand in (False, True):
        hu = t.load(p)
        if by_hand:
            s = REAL()
            for r in rows:
                w = want[r["id"]]
                s.add_hydro_unit(r["id"], w["area"], w["z"])
                s.add_hydro_unit_property_double("elevation", w["z"], "m")
                s.add_hydro_unit_property_double("slope", w["slope"], "degrees")
                s.add_hydro_unit_property_str("aspect_class", w["asp"])
                for c, ty in zip(t.names, t.types):
                    s.add_land_cover(c, ty, w["frac"][c])
            for a, b, f in links:
                s.add_lateral_connection(a, b, f)
            hu.settings = s
        elif links:
            hu.set_connectivity(pd.DataFrame({"id": [l[0] for l in links], "connectivity": [{l[1]: l[2]} for l in links]}))
        f, end = weather(d, hu, [1, 3, 4, 1, 1, 5, 4, 2, 0, 3], name="w%d" % by_hand)
        model = cls(land_cover_names=list(t.names), land_cover_types=list(t.types), record_all=True, **o)
        model.setup(spatial_structure=hu, output_path=d, start_date="2000-01-01", end_date=end)
        ps = fill(model.generate_parameters())
        model.run(parameters=ps, forcing=f)
        x.step(10)
        ids = [int(i) for i in model.get_recorded_hydro_unit_ids()]
        res = {"outlet": np.array(model.get_outlet_discharge())}
        res.update({("area", i): a for i, a in zip(ids, model.get_recorded_hydro_unit_areas())} if hasattr(model, "get_recorded_hydro_unit_areas") else {})
        for l in model.get_recorded_labels():
            v = np.asarray(model.get_recorded_hydro_unit_values(l))
            for k, i in enumerate(ids):
                res[l, i] = v[k]
                x.check(v.shape[0] == len(ids), "model", "%s has %s values for %d units", l, v.shape, len(ids))
        out.append(res)
    a, b = out
    x.same(sorted(map(str, a)), sorted(map(str, b)), "model", "recorded series")
    x.check(len(a) > 5, "model", "nothing is recorded")
    for k in a:
        x.close(a[k], b[k], 1e-9, "model", "series %s" % (k,))
    x.state(m, cov, z, round(float(np.sum(a["outlet"])), 6))


def run_data(w, x):
    """Units given as a table in memory."""
    k = int(w)
    n = (1, 2, 4, 12)[k % 4]
    ids = [3 * i + 2 for i in range(n)]
    z = [1000.0 + 100 * ((i * 5) % n) for i in range(n)]
    a = [1e5 * (i + 1) for i in range(n)]
    df = pd.DataFrame({("id", "-"): ids, ("area", "m2"): a, ("elevation", "m"): z})
    if k >= 4:
        df[("slope", "degrees")] = [2.0 * i for i in range(n)]
    df.columns = pd.MultiIndex.from_tuples(list(df.columns))
    hu = recording(lambda: hb.HydroUnits(["open"], ["open"], df))
    want = {i: dict(area=s, z=h, frac={"open": 1.0}) for i, s, h in zip(ids, a, z)}
    if k >= 4:
        for j, i in enumerate(ids):
            want[i]["slope"] = 2.0 * j
    compare(x, hu, want, ["open"], ["open"], "data")
    x.same(hu.get_hydro_unit_count(), n, "data", "number of units")
