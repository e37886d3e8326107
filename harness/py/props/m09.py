"""M09: the actions of a model do what the files and tables they were given say, on the day they say it."""
import datetime
import gc
import weakref

import pandas as pd

from props.common import *
import hydrobricks._hydrobricks as core
import hydrobricks.actions.action_land_cover_change as lcmod
from hydrobricks.actions import (ActionGlacierEvolutionAreaScaling, ActionGlacierEvolutionDeltaH,
                                 ActionGlacierSnowToIceTransformation, ActionLandCoverChange)
from hydrobricks.preprocessing import GlacierEvolutionAreaScaling, GlacierEvolutionDeltaH

REAL = core.ActionLandCoverChange


class Recorder(REAL):
    """The action of the core, that also remembers the changes it was told."""

    def __init__(self):
        super().__init__()
        self.changes = []

    def add_change(self, date, hydro_unit_id, land_cover, area):
        self.changes.append((date, hydro_unit_id, land_cover, area))
        super().add_change(date, hydro_unit_id, land_cover, area)


class Handle(core.ActionGlacierEvolutionDeltaH):
    pass


def recording(f):
    lcmod._ActionLandCoverChange = Recorder
    try:
        return f()
    finally:
        lcmod._ActionLandCoverChange = REAL


def mjd(day):
    return (day - datetime.date(1858, 11, 17)).days


MONTHS = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"]
UNITS = {"m2": 1.0, "m^2": 1.0, "m**2": 1.0, "square meter": 1.0, "km2": 1e6, "km^2": 1e6, "km**2": 1e6, "square kilometer": 1e6}
# what a file says of a unit at a date: the area falls, stays, rises, is zero, is missing, is back to the first one
STEP = "dsrz-f"
START = datetime.date(2000, 1, 1)


def story(word, area):
    """The areas of a word (None where the file says nothing)."""
    first = 0.5 * area
    cur, out = first, []
    for c in word:
        if c == "-":
            out.append(None)
            continue
        cur = {"d": cur * 0.75, "s": cur, "r": min(cur * 1.25 + 0.01 * area, 0.9 * area), "z": 0.0, "f": first}[c]
        cur = round(cur, 2)
        out.append(cur)
    return out


def table(path, key, rows, dates, unit, fmt="%r", header="elevation"):
    """rows: (key value, areas). Writes the file, returns what it says in m2."""
    k = UNITS[unit]
    said = {}
    with open(path, "w") as f:
        f.write(",".join([header] + [d.isoformat() for d in dates]) + "\n")
        for who, value, areas in rows:
            txt = ["" if a is None else (fmt % (a / k)) for a in areas]
            said[who] = [None if t == "" else float(t) * k for t in txt]
            f.write(",".join([value] + txt) + "\n")
    return said


def held(pairs, day):
    """The area on a day, from (day, area) pairs."""
    v = None
    for d, a in sorted(pairs, key=lambda p: p[0]):
        if d <= day and a is not None:
            v = a
    return v


def cases(tier):
    full = tier == "thorough"
    # every story of one unit, next to a unit that changes and one that does not
    for n in range(1, 6 if not full else 7):
        for w in itertools.product(STEP, repeat=n):
            yield "csv/%s.e.m2.0.3" % "".join(w)
    # order of the rows, spelling of the unit, what the rows are found by
    for w in ("dsd", "zsf", "s-s", "dzr", "-dr", "rrs"):
        for by, u in itertools.product("ei", UNITS):
            for order in range(6):
                for n in (3, 2, 1):
                    yield "csv/%s.%s.%s.%d.%d" % (w, by, u.replace(" ", "~"), order, n)
    for a, b in itertools.product(itertools.product("dsz", repeat=2), repeat=2):
        for mode in "cud":                # another cover, another unit, other dates
            yield "two/%s.%s.%s" % ("".join(a), "".join(b), mode)
    for k in range(10):
        yield "refuse/%d" % k
    # glacier tables
    for cls in "DA":
        for month in [str(k) for k in range(1, 13)] + MONTHS:
            for n, u in ((3, 1), (5, 2), (9, 3), (101, 3)):
                yield "table/%s.%s.%d.%d" % (cls, month, n, u)
        for k in range(9):
            yield "badtable/%s.%d" % (cls, k)
    for m in range(12):
        for day in (1, 2, 15, 28, 29, 30, 31):
            yield "ice/%d.%d" % (m, day)
    for k in range(7):
        yield "badice/%d" % k
    # runs
    for model in ("socont", "hbv"):
        for cov in ("og", "gog"):
            words = [w for n in (1, 2, 3) for w in itertools.product("dsrz", repeat=n)] if full else \
                [w for n in (1, 2) for w in itertools.product("dsrz", repeat=n)] + list(itertools.product("drz", repeat=3))
            for w in words:
                for off in (0, 3) if not full else (0, 1, 3, 6):
                    yield "run/%s.%s.%s.%d" % (model, cov, "".join(w), off)
        for sh in itertools.product("123", repeat=2):
            for order in "xy":
                yield "swap/%s.%s.%s" % (model, "".join(sh), order)
        for day in range(1, 12 if not full else 20):
            yield "melt/%s.%d" % (model, day)
        for cls in "DA":
            for month in (2, 3):
                for n in (3, 6, 21):
                    yield "evolve/%s.%s.%d.%d" % (model, cls, month, n)
    for k in range(4):
        yield "life/%d" % k


def units(x, names=("open", "glacier"), types=("open", "glacier")):
    d = x.dir()
    rows = [(4, 100000.0, 3100, 20, "N"), (7, 250000.0, 2900, 30, "S"), (2, 80000.0, 2550, 10, "E")]
    p = os.path.join(d, "units.csv")
    with open(p, "w") as f:
        f.write("id,elevation,slope,aspect_class," + ",".join("area_" + n for n in names) + "\n")
        f.write("-,m,degrees,-," + ",".join("m2" for n in names) + "\n")
        for i, a, z, s, asp in rows:
            share = [0.5] + [0.5 / (len(names) - 1)] * (len(names) - 1)
            f.write("%d,%d,%d,%s," % (i, z, s, asp) + ",".join("%r" % (a * k) for k in share) + "\n")
    hu = hb.HydroUnits(list(types), list(names))
    hu.load_from_csv(p, column_elevation="elevation", columns_areas={n: "area_" + n for n in names},
                     other_columns={"slope": "slope", "aspect_class": "aspect_class"})
    return d, hu, rows


def check_changes(x, changes, said, days, cover):
    """The recorded changes of a cover say what the file says, and nothing else."""
    got = {}
    for t, i, c, a in changes:
        if c == cover:
            got.setdefault(int(i), []).append((t, a))
    x.check(set(got) <= set(said), "unit", "%s changes in units %s, the file is about %s", cover, sorted(got), sorted(said))
    for i, areas in said.items():
        x.state(("say", tuple(areas)))
        mine = dict(zip((mjd(d) for d in days), areas))
        for t, a in got.get(i, []):
            x.check(t in mine and mine[t] is not None, "date", "unit %d: a change on day %s that is not in the file", i, t)
            x.close(a, mine[t], 1e-9 * (1 + abs(mine[t])), "area", "unit %d, %s on day %s" % (i, cover, t))
        for d in days:
            x.step()
            w, g = held([(mjd(q), a) for q, a in zip(days, areas)], mjd(d)), held(got.get(i, []), mjd(d))
            x.check((w is None) == (g is None), "dropped", "unit %d, %s: the file says %s, recorded %s", i, d, w, g)
            if w is not None:
                x.close(g, w, 1e-9 * (1 + w), "area", "area of unit %d on %s" % (i, d))


def run_csv(spec, x):
    word, by, unit, order, n = spec.split(".")
    unit = unit.replace("~", " ")
    d, hu, rows = units(x)
    days = [datetime.date(2001 + k, 8, 1 + k) for k in range(len(word))]
    areas = [(rows[0], story(word, rows[0][1])), (rows[1], story("d" * len(word), rows[1][1])), (rows[2], story("s" * len(word), rows[2][1]))]
    areas = [areas[k] for k in list(itertools.permutations(range(3)))[int(order)]][:int(n)]
    p = os.path.join(d, "c.csv")
    said = table(p, by, [(r[0], str(r[2] if by == "e" else r[0]), a) for r, a in areas], days, unit,
                 header={"e": "elevation", "i": "hu"}[by])
    a = recording(ActionLandCoverChange)
    x.check(not a.is_initialized, "initialized", "an action without changes says it is initialized")
    k = dict(match_with="id") if by == "i" else ({} if int(order) % 2 else dict(match_with="elevation"))
    a.load_from_csv(p, hu, "glacier", unit, **k)
    check_changes(x, a.action.changes, said, days, "glacier")
    x.same(a.get_change_count(), len(a.action.changes), "count", "number of changes")
    x.same(a.get_land_cover_count(), 1 if a.action.changes else 0, "count", "number of covers")
    x.check(a.is_initialized, "initialized", "a loaded action says it is not initialized")


def run_two(spec, x):
    """Two files into the same action."""
    wa, wb, mode = spec.split(".")
    d, hu, rows = units(x, ("open", "ice", "debris"), ("open", "glacier", "glacier"))
    a = recording(ActionLandCoverChange)
    days = [datetime.date(2001, 8, 1), datetime.date(2003, 8, 1)]
    later = [datetime.date(2002, 1, 1), datetime.date(2005, 8, 1)] if mode == "d" else days
    r2 = rows[1] if mode == "u" else rows[0]
    c2 = "ice" if mode == "u" else "debris"
    p, q = os.path.join(d, "a.csv"), os.path.join(d, "b.csv")
    s1 = table(p, "e", [(rows[0][0], str(rows[0][2]), story(wa, rows[0][1] / 2))], days, "m2")
    s2 = table(q, "e", [(r2[0], str(r2[2]), story(wb, r2[1] / 2))], later, "km2")
    a.load_from_csv(p, hu, "ice", "m2")
    n1 = len(a.action.changes)
    a.load_from_csv(q, hu, c2, "km2")
    check_changes(x, a.action.changes[:n1], s1, days, "ice")
    check_changes(x, a.action.changes[n1:], s2, later, c2)
    x.check(all(c[2] == c2 for c in a.action.changes[n1:]), "cover", "the second file changes %s", {c[2] for c in a.action.changes[n1:]})
    x.same(a.get_change_count(), len(a.action.changes), "count", "number of changes")
    x.same(a.get_land_cover_count(), len({c[2] for c in a.action.changes}), "count", "number of covers")


def run_refuse(spec, x):
    k = int(spec)
    d, hu, rows = units(x)
    p = os.path.join(d, "c.csv")
    text, kw = "elevation,2001-08-01\n3100,50\n", {}
    unit = "m2"
    if k == 0:
        text = "elevation,2001-08-01\n3101,50\n"
    elif k == 1:
        kw = dict(match_with="slope")
    elif k == 2:
        text, kw = "id,2001-08-01\n1,50\n", dict(match_with="id")
    elif k == 3:
        text, kw = "id,2001-08-01\n8,50\n", dict(match_with="id")
    elif k == 4:
        unit = "acre"
    elif k == 5:
        unit = "mm"
    elif k == 6:
        text = "elevation,then\n3100,50\n"
    elif k == 7:
        text = "elevation,2001-08-01\n3100,much\n"
    elif k == 8:
        p = os.path.join(d, "absent.csv")
    elif k == 9:
        z = hu.hydro_units[("elevation", "m")].tolist()
        z[0] = z[1]
        hu.hydro_units[("elevation", "m")] = z
        text = "elevation,2001-08-01\n%d,50\n" % z[1]
    if k != 8:
        with open(p, "w") as f:
            f.write(text)
    a = recording(ActionLandCoverChange)
    e = refused(lambda: a.load_from_csv(p, hu, "glacier", unit, **kw), FileNotFoundError, AssertionError, IndexError)
    x.check(e is not None, "accepted", "the file is accepted (case %d), changes %s", k, a.action.changes)
    x.step()
    x.ok(1)


def lookup(n, u, scale=1.0):
    """Areas and volumes that fall to zero, different in every cell."""
    a = [[0.0 if i == n - 1 else round(scale * (k + 1) * 100.0 * (1 - i / (n - 1.0)) ** (1 + 0.1 * k), 4) for k in range(u)] for i in range(n)]
    v = [[0.0 if i == n - 1 else round(scale * (k + 2) * 3000.0 * (1 - i / (n - 1.0)) ** (1.2 + 0.1 * k), 4) for k in range(u)] for i in range(n)]
    return a, v


def write_lookup(d, ids, a, v, na="glacier_evolution_lookup_table_area.csv", nv="glacier_evolution_lookup_table_volume.csv", vids=None):
    for name, t, i in ((na, a, ids), (nv, v, vids or ids)):
        with open(os.path.join(d, name), "w") as f:
            f.write(",".join(str(k) for k in i) + "\n")
            for r in t:
                f.write(",".join("%r" % c for c in r) + "\n")


def grid(m):
    return [[float(c) for c in r] for r in np.asarray(m).tolist()]


ACTION = {"D": ActionGlacierEvolutionDeltaH, "A": ActionGlacierEvolutionAreaScaling}
CORE = {"D": core.ActionGlacierEvolutionDeltaH, "A": core.ActionGlacierEvolutionAreaScaling}
MAKER = {"D": GlacierEvolutionDeltaH, "A": GlacierEvolutionAreaScaling}


def made(c, ids, a, v):
    """The object that computes the tables, with its tables."""
    g = MAKER[c].__new__(MAKER[c])
    ta, tv = (pd.DataFrame({i: [r[k] for r in t] for k, i in enumerate(ids)}) for t in (a, v))
    g.get_lookup_table_area = lambda: ta
    g.get_lookup_table_volume = lambda: tv
    return g


def run_table(spec, x):
    c, month, n, u = spec.split(".")
    n, u = int(n), int(u)
    num = int(month) if month.isdigit() else MONTHS.index(month) + 1
    given = int(month) if month.isdigit() else month
    ids = [7, 4, 2][:u]
    a, v = lookup(n, u)
    d = x.dir()
    for how in range(4):
        act = ACTION[c]()
        x.check(not act.is_initialized and act.get_month() is None, "initialized", "an action without tables says it has some")
        if how == 0:
            write_lookup(d, ids, a, v)
            act.load_from_csv(d, update_month=given)
        elif how == 1:
            write_lookup(d, ids, a, v, "a.csv", "v.csv")
            from pathlib import Path
            act.load_from_csv(Path(d), land_cover="ice", filename_area="a.csv", filename_volume="v.csv", update_month=given)
        elif how == 2:
            act.load_from(made(c, ids, a, v), update_month=given)
        else:
            act.load_from(made(c, ids, a, v), land_cover="ice", update_month=given)
            if num == 10:
                act = ACTION[c]()
                act.load_from(made(c, ids, a, v), land_cover="ice")
        x.step()
        x.state((c, n, u, how))
        x.same(act.get_month(), num, "month", "month of the update")
        x.same(act.get_land_cover_name(), "ice" if how in (1, 3) else "glacier", "cover", "land cover")
        x.same([int(i) for i in np.asarray(act.get_hydro_unit_ids()).tolist()], ids, "ids", "units of the table")
        x.same(grid(act.get_lookup_table_area()), a, "area", "areas of the table")
        x.same(grid(act.get_lookup_table_volume()), v, "volume", "volumes of the table")
        x.check(act.is_initialized, "initialized", "a loaded action says it is not initialized")


def run_badtable(spec, x):
    c, k = spec.split(".")
    k = int(k)
    d = x.dir()
    ids, (a, v) = [7, 4, 2], lookup(5, 3)
    act = ACTION[c]()
    kw = {}
    if k == 0:
        write_lookup(d, ids, a, v, vids=[7, 2, 4])
    elif k == 1:
        write_lookup(d, ids, a, v[:-1])
    elif k == 2:
        write_lookup(d, ids, a, [r[:2] for r in v], vids=[7, 4])
    elif k == 3:
        write_lookup(d, ids, a, v, "other.csv")
    elif k in (4, 5, 6, 7):
        write_lookup(d, ids, a, v)
        kw = dict(update_month=(0, 13, "Brumaire", 3.5)[k - 4])
    e = refused((lambda: act.load_from(made("DA"["AD".index(c)], ids, a, v))) if k == 8 else (lambda: act.load_from_csv(d, **kw)),
                FileNotFoundError, AssertionError)
    x.check(e is not None, "accepted", "tables that cannot be used are accepted (case %d)", k)
    x.check(not act.is_initialized, "initialized", "an action whose tables were refused says it is initialized")
    x.step()


def run_ice(spec, x):
    m, day = (int(c) for c in spec.split("."))
    for given in (m + 1, MONTHS[m]):
        act = ActionGlacierSnowToIceTransformation(given, day, "ice")
        x.same(act.get_month(), m + 1, "month", "month of the transformation")
        x.same(act.get_day(), day, "day", "day of the transformation")
        x.same(act.get_land_cover_name(), "ice", "cover", "land cover")
        x.check(act.is_initialized, "initialized", "the action says it is not initialized")
        x.step()
    act = ActionGlacierSnowToIceTransformation()
    x.same((act.get_month(), act.get_day(), act.get_land_cover_name()), (9, 30, "glacier"), "default", "default date and cover")


def run_badice(spec, x):
    k = int(spec)
    if k < 6:
        e = refused(lambda: ActionGlacierSnowToIceTransformation((0, 13, -1, "Sept", "", None)[k]))
        x.check(e is not None, "accepted", "a month that does not exist is accepted (case %d)", k)
    else:
        # actions that are not ready, models that are not ready
        d, hu, rows = units(x)
        m = models.Socont(land_cover_names=["open", "glacier"], land_cover_types=["open", "glacier"])
        x.check(refused(lambda: m.add_action(ActionGlacierSnowToIceTransformation())) is not None, "accepted",
                "an action is added to a model that is not set up")
        m.setup(hu, d, "2000-01-01", "2000-02-01")
        for c in (ActionLandCoverChange, ActionGlacierEvolutionDeltaH, ActionGlacierEvolutionAreaScaling):
            x.check(refused(lambda: m.add_action(c())) is not None, "accepted", "an action without data is added (%s)", c.__name__)
        x.same(m.get_action_count(), 0, "count", "number of actions after the refusals")
    x.step()


# ------------------------------------------------------------------------------------------------------ runs
SNOW = [1, 1, 2, 0, 1, 5, 3, 1, 0, 4, 1, 2, 0, 0, 4, 4, 1, 0, 3, 1, 4, 0, 1, 2]


def model_of(kind, names, types, **o):
    cls = {"socont": models.Socont, "hbv": models.HBV96}[kind]
    return cls(land_cover_names=list(names), land_cover_types=list(types), record_all=True, **o)


def result(m):
    r = {"q": np.array(m.get_outlet_discharge())}
    for l in m.get_recorded_labels():
        r[l] = np.asarray(m.get_recorded_hydro_unit_values(l))
    return r


def same_runs(x, a, b, what):
    x.same(sorted(a), sorted(b), "labels", what + ": labels")
    for l in a:
        x.check(a[l].shape == b[l].shape and np.array_equal(a[l], b[l], equal_nan=True), "differs", "%s: %s differs", what, l)


def launch(x, kind, hu, d, names, types, word, acts, start="2000-01-01", **o):
    m = model_of(kind, names, types, **o)
    f, end = weather(d, hu, word, start=start, name="w%d" % len(os.listdir(d)))
    m.setup(hu, d, start, end)
    acts(m)
    m.run(fill(m.generate_parameters()), f)
    x.step(len(word) * 3)
    return m


NAMES = {"og": (["open", "glacier"], ["open", "glacier"]), "gog": (["ice", "open", "debris"], ["glacier", "open", "glacier"])}


def run_run(spec, x):
    """The extents of a run are those of the file, from the date on."""
    kind, cov, word, off = spec.split(".")
    names, types = (["open", "glacier"], ["open", "glacier"]) if cov == "og" else (["open", "ice", "debris"], ["open", "glacier", "glacier"])
    d, hu, rows = units(x, names, types)
    days = [START + datetime.timedelta(days=int(off) + 4 * k) for k in range(len(word))]
    p = os.path.join(d, "c.csv")
    first = 0.5 / (len(names) - 1)
    said = table(p, "e", [(rows[0][0], str(rows[0][2]), story(word, rows[0][1] * 2 * first)),
                          (rows[2][0], str(rows[2][2]), story("d" * len(word), rows[2][1] * 2 * first))], days, "m2")
    cover = names[1]
    acts = []

    def file(m):
        a = ActionLandCoverChange()
        a.load_from_csv(p, hu, cover, "m2")
        x.check(m.add_action(a), "add", "the action is not added")
        x.same((m.get_action_count(), m.get_sporadic_action_item_count()), (1, a.get_change_count()), "count", "actions of the model")

    def core_action(m):
        a = REAL()
        for i, areas in said.items():
            for day, v in zip(days, areas):
                a.add_change(mjd(day), i, cover, v)
        acts.append(a)
        m.model.add_action(a)

    a = launch(x, kind, hu, d, names, types, SNOW[:16], file)
    b = launch(x, kind, hu, d, names, types, SNOW[:16], core_action)
    same_runs(x, result(a), result(b), "changes of a file, and told one by one")
    ids = [int(i) for i in a.get_recorded_hydro_unit_ids()]
    fr = {c: np.asarray(a.get_recorded_hydro_unit_fractions(c)) for c in names}
    area = {r[0]: r[1] for r in rows}
    for k, i in enumerate(ids):
        for t in range(16):
            day = START + datetime.timedelta(days=t)
            w = held(list(zip(days, said.get(i, []))), day) if t else None   # the first step keeps the declared extents
            w = first if w is None else w / area[i]
            x.state(("fraction", round(w, 4)))
            x.close(float(fr[cover][k][t]), w, 1e-5, "extent", "%s of unit %d on %s" % (cover, i, day))
            for c in names[2:]:
                x.close(float(fr[c][k][t]), first, 1e-5, "extent", "%s of unit %d on %s" % (c, i, day))
            x.close(sum(float(fr[c][k][t]) for c in names), 1.0, 1e-5, "sum", "covers of unit %d on %s" % (i, day))


def run_swap(spec, x):
    """Covers that exchange land on the same date, in a unit that has nothing else."""
    kind, shares, order = spec.split(".")
    names, types = ["open", "ice", "debris"], ["open", "glacier", "glacier"]
    d, hu, rows = units(x, names, types)
    full = {r[0]: r[1] for r in rows}
    start = {"ice": 0.6, "debris": 0.4}
    hist = [(START + datetime.timedelta(days=2), start)]
    for k, s in enumerate(shares):
        part = {"1": 0.3, "2": 0.55, "3": 0.85}[s]
        hist.append((START + datetime.timedelta(days=6 + 4 * k), {"ice": part, "debris": 1.0 - part}))
    days = [h[0] for h in hist]
    u = rows[0]
    files = {}
    for c in ("ice", "debris"):
        files[c] = os.path.join(d, c + ".csv")
        table(files[c], "e", [(u[0], str(u[2]), [round(h[1][c] * u[1], 3) for h in hist])], days, "m2")

    def acts(m):
        a = ActionLandCoverChange()
        for c in ("ice", "debris") if order == "x" else ("debris", "ice"):
            a.load_from_csv(files[c], hu, c, "m2")
        m.add_action(a)
    m = launch(x, kind, hu, d, names, types, SNOW[:16], acts)
    k = [int(i) for i in m.get_recorded_hydro_unit_ids()].index(u[0])
    for c in names:
        v = np.asarray(m.get_recorded_hydro_unit_fractions(c))[k]
        for t in range(16):
            day = START + datetime.timedelta(days=t)
            w = held([(q, h.get(c, 0.0)) for q, h in hist], day)
            w = {"open": 0.5, "ice": 0.25, "debris": 0.25}[c] if w is None else w
            x.close(float(v[t]), w, 1e-5, "extent", "%s on %s" % (c, day))
    x.state(shares)


def run_melt(spec, x):
    """The snow of the glaciers becomes ice on the date, every year, and only on it."""
    kind, day = spec.split(".")
    day = int(day)
    d, hu, rows = units(x)
    word = [1] * 25
    word[day - 1] = 0                      # a cold dry day: the snow of the evening is the one that came that day

    def acts(m):
        m.add_action(ActionGlacierSnowToIceTransformation("January", day, "glacier"))
        x.same(m.get_action_count(), 1, "count", "actions of the model")
    m = launch(x, kind, hu, d, ["open", "glacier"], ["open", "glacier"], word, acts, glacier_infinite_storage=False)
    ref = launch(x, kind, hu, d, ["open", "glacier"], ["open", "glacier"], word, lambda m: None, glacier_infinite_storage=False)
    g, o = ("glacier_snowpack:snow_content", "open_snowpack:snow_content")
    s, t = np.asarray(m.get_recorded_hydro_unit_values(g)), np.asarray(ref.get_recorded_hydro_unit_values(g))
    for k in range(s.shape[0]):
        for q in range(25):
            want = t[k][q] if q < day - 1 else (t[k][q] - (t[k][day - 2] if day > 1 else 0.0))
            x.close(float(s[k][q]), float(want), 1e-4 * (1 + t[k][q]), "snow", "snow of the glacier on day %d" % (q + 1))
    x.check(np.array_equal(np.asarray(m.get_recorded_hydro_unit_values(o)), np.asarray(ref.get_recorded_hydro_unit_values(o))), "open",
            "the snow outside of the glacier changes too")


def run_evolve(spec, x):
    kind, c, month, n = spec.split(".")
    n = int(n)
    d, hu, rows = units(x)
    ids = [r[0] for r in rows]
    a = [[round(0.5 * r[1] * (1 - i / (n - 1.0)) ** (0.5 + 0.3 * k), 3) for k, r in enumerate(rows)] for i in range(n)]
    v = [[round(0.5 * r[1] * 0.4 * (1 - i / (n - 1.0)), 3) for k, r in enumerate(rows)] for i in range(n)]
    write_lookup(d, ids, a, v)
    word = [4] * 40 + [1, 4, 4] * 8
    start = "2000-01-15"
    keep = []

    def by_file(m):
        act = ACTION[c]()
        act.load_from_csv(d, update_month=MONTHS[int(month) - 1])
        m.add_action(act)

    def by_hand(m):
        act = CORE[c]()
        act.add_lookup_tables(int(month), "glacier", np.array(ids), np.array(a), np.array(v))
        keep.append(act)
        m.model.add_action(act)
    o = dict(glacier_infinite_storage=False)
    p = launch(x, kind, hu, d, ["open", "glacier"], ["open", "glacier"], word, by_file, start, **o)
    q = launch(x, kind, hu, d, ["open", "glacier"], ["open", "glacier"], word, by_hand, start, **o)
    same_runs(x, result(p), result(q), "tables of files, and told by hand")
    fr = np.asarray(p.get_recorded_hydro_unit_fractions("glacier"))
    first = (datetime.date(2000, int(month), 1) - datetime.date(2000, 1, 15)).days
    x.check(np.allclose(fr[:, :first], 0.5, atol=1e-5), "early", "the glacier changes before the month of the update")
    x.check(np.array_equal(fr[:, first:first + 18], np.repeat(fr[:, first:first + 1], 18, axis=1)), "late", "the glacier changes within the month")
    x.check((fr[:, first] < 0.5).any(), "never", "the glacier does not change although it melted")


def run_life(spec, x):
    """An action belongs to the model it was added to: it can be forgotten by who made it."""
    d, hu, rows = units(x)
    word = SNOW[:12]
    p = os.path.join(d, "c.csv")
    table(p, "e", [(rows[0][0], str(rows[0][2]), story("dzr", rows[0][1]))], [START + datetime.timedelta(days=2 + 3 * k) for k in range(3)], "m2")
    ids = [r[0] for r in rows]
    write_lookup(d, ids, [[0.5 * r[1] * (1 - i / 4) for r in rows] for i in range(5)], [[20.0 * r[1] * (1 - i / 4) for r in rows] for i in range(5)])

    def make():
        k = int(spec)
        if k == 0:
            a = ActionLandCoverChange()
            a.load_from_csv(p, hu, "glacier", "m2")
        elif k == 1:
            a = ActionGlacierSnowToIceTransformation("January", 6)
        else:
            a = ACTION["DA"[k - 2]]()
            a.load_from_csv(d, update_month="January")
        return a
    kept, seen = [], []

    def keep(m):
        kept.append(make())
        m.add_action(kept[0])

    def forget(m):
        a = make()
        old = a.action.__class__
        seen.append(weakref.ref(a))
        m.add_action(a)
        del a
        gc.collect()
        for _ in range(50):                # whatever takes the place of a forgotten action
            make()
        x.check(seen[0]() is not None, "forgotten", "the model uses an action that no longer exists")
    o = dict(glacier_infinite_storage=False) if int(spec) else {}
    a = launch(x, "socont", hu, d, ["open", "glacier"], ["open", "glacier"], word, keep, **o)
    b = launch(x, "socont", hu, d, ["open", "glacier"], ["open", "glacier"], word, forget, **o)
    same_runs(x, result(a), result(b), "an action that is kept, and one that is not")


def run(case, x):
    kind, _, spec = case.partition("/")
    return globals()["run_" + kind](spec, x)
