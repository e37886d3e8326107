"""M12: simulated and observed glacier mass balances and snow covers are those of the land, the days and the files they describe."""
import datetime
import json
import sys
import types as pytypes

import pandas as pd
from pandas import ShimMissing

from props.common import *
import hydrobricks.evaluation.snow_cover as scmod
from hydrobricks.actions import ActionLandCoverChange
from hydrobricks.evaluation import GlacierMassBalanceObservations as GMB
from hydrobricks.evaluation import SnowCoverObservations as SC

START = datetime.date(2000, 1, 1)


def day(k, clock=""):
    return pd.Timestamp((START + datetime.timedelta(days=k)).isoformat() + clock)


# ------------------------------------------------------------------------------------------------------- runs of models
SPECS = ["socont/2.l.dd.-.-.-.1.", "socont/1.r.asp.-.-.c.1.", "socont/2.l.dd.c.-.-.0.", "socont/1.l.dd.-.-.-.0.",
         "hbv96/dd.r.1.-.-.-.0.0.1.", "hbv96/dd.h.0.t.-.-.0.0.1.", "hbv96/asp.-.0.l.-.p.0.0.0.", "hbv96/dd.r.0.-.-.c.0.0.0."]
# days: see common.DAYS
WORDS = ["14041124", "1114444101440", "41434104311040", "4444", "1111", "10441011444411", "5124315244"]
# share of the glacier covers of each unit, area, elevation
LAYS = {
    "a": [(0.5, 3e5, 1500), (1.0, 1e5, 2000), (0.0, 9e5, 900)],
    "b": [(1.0, 5e5, 1800)],
    "c": [(0.1, 1e6, 1200), (0.1, 2e5, 1200), (0.9, 7e5, 1700)],
    "d": [(0.02, 8e6, 1000), (0.7, 4e4, 1500), (0.4, 3e5, 2000), (1.0, 1e4, 2500), (0.0, 1e6, 1500)],
}
# how the glacier splits over the glacier covers, unit after unit (the same everywhere when there is one)
PARTS = {"og": [(1.0,)], "gog": [(0.8, 0.2), (0.25, 0.75), (1.0, 0.0), (0.5, 0.5)]}
BANDS = [(None, None), (0, 1500), (1500, 2000), (1500, 1500.5), (1000, 2500), (1200, 1200), (2000, 9000), (3000, 4000)]


def run_model(x, cls, o, names, types, rows, word, extra=(), full=True, before=None, tell=None):
    d = x.dir("u")
    write_units(d + "/u.csv", rows, names)
    hu = hb.HydroUnits(list(types), list(names))
    hu.load_from_csv(d + "/u.csv", column_elevation="elevation", columns_areas={n: "area_" + n for n in names},
                     other_columns={"slope": "slope", "aspect_class": "aspect_class"})
    f, end = weather(d, hu, word, needed(o))
    m = cls(land_cover_names=names, land_cover_types=types, record_all=full, **o)
    ps = m.generate_parameters()
    fill(ps)
    if "debris" in names:
        own = ps.parameters[ps.parameters["component"] == "debris"]
        if "degree_day_factor" in set(own["name"]):
            ps.set_values({"debris:degree_day_factor": 3.5})
    if tell:
        tell(m)
    m.setup(hu, output_path=d, start_date="2000-01-01", end_date=end)
    if before:
        before(m, hu, d)
    m.run(ps, f)
    x.step(len(word) * len(rows))
    return m


def lay_rows(lay, cov, names, types):
    ice = [n for n, t in zip(names, types) if t == "glacier"]
    soil = next(n for n, t in zip(names, types) if t != "glacier")
    rows = []
    for k, (share, area, z) in enumerate(LAYS[lay]):
        part = PARTS[cov][k % len(PARTS[cov])]
        ar = {n: 0.0 for n in names}
        for n, p in zip(ice, part):
            ar[n] = round(area * share * p, 3)
        ar[soil] = round(area - sum(ar.values()), 3)
        rows.append((k + 1, area, z, 15 + 5 * k, "NSEW"[k % 4], ar))
    return rows, ice


def gmb(targets, **kw):
    o = GMB(**kw)
    o.targets = [dict(t0=a, t1=b, value=1.0, balance_type="annual", band_lo=lo, band_hi=hi) for a, b, lo, hi in targets]
    o.granularity = "whole"
    return o


def run_mb(spec, x):
    """Against catchments that are nothing but the glacier."""
    k, cov, w, lay = spec.split(".")
    cls, o, names, types = parse(SPECS[int(k)] + cov)
    word = [int(c) for c in WORDS[int(w)]]
    n = len(word)
    rows, ice = lay_rows(lay, cov, names, types)
    m = run_model(x, cls, o, names, types, rows, word)
    # of each unit and glacier cover: the snow at the end of each day, the ice lost each day
    snow, melt = {}, {}
    for i, area, z, slope, asp, ar in rows:
        for c in ice:
            if not ar[c]:
                continue
            alone = run_model(x, cls, o, names, types, [(i, area, z, slope, asp, {q: area if q == c else 0.0 for q in names})], word)
            snow[i, c] = alone.get_recorded_hydro_unit_values(c + "_snowpack:snow_content")[0]
            melt[i, c] = alone.get_recorded_hydro_unit_values(c + ":melt:output")[0]
    pairs = [(a, b) for a in range(-1, n + 1) for b in range(a, n + 1)]
    targets = [(day(a), day(b), lo, hi) for a, b in pairs for lo, hi in BANDS]
    got = gmb(targets).simulated(m)
    want = []
    for a, b in pairs:
        for lo, hi in BANDS:
            v = t = 0.0
            for i, area, z, _, _, ar in rows:
                if lo is not None and not lo <= z < hi:
                    continue
                for c in ice:
                    if ar[c] and 0 <= a < b < n:
                        v += ar[c] * (snow[i, c][b] - snow[i, c][a] - sum(melt[i, c][a + 1:b + 1]))
                        t += ar[c]
            want.append(v / t if t else float("nan"))
    for g, q, t in zip(got, want, targets):
        x.close(g, q, 1e-6, "balance", "balance from %s to %s, band %s-%s" % t)
    # what an observation asks to be recorded is enough
    ob = gmb(targets)
    part = run_model(x, cls, o, names, types, rows, word, full=False, tell=ob.configure_recording)
    x.close(ob.simulated(part), got, 1e-12, "recording", "balances from what the observation asked to record")
    x.state(spec, tuple(np.round(np.nan_to_num(got), 3)))
    x.dim("balances", len(targets))


def run_clock(spec, x):
    """Observations stamped at a time of the day are of that day."""
    what, lay = spec.split(".")
    cls, o, names, types = parse(SPECS[0] + "og")
    word = [int(c) for c in WORDS[1]]
    n = len(word)
    rows, ice = lay_rows(lay, "og", names, types)
    m = run_model(x, cls, o, names, types, rows, word)
    if what == "g":
        pairs = [(a, b) for a in range(n) for b in range(a, n)]
        plain = gmb([(day(a), day(b), None, None) for a, b in pairs]).simulated(m)
    else:
        pairs = [(a, i) for a in range(n) for i in (1, 2, 3)]
        plain = snowobs([(day(a), i) for a, i in pairs]).simulated(m)
    for c in (" 00:00:01", " 06:00", " 10:30", " 11:59:59", " 12:00", " 12:00:01", " 18:00", " 23:59:59"):
        if what == "g":
            ob = gmb([(day(a, c), day(b, c), None, None) for a, b in pairs])
        else:
            ob = snowobs([(day(a, c), i) for a, i in pairs])
        got = ob.simulated(m)
        for p, g, q in zip(pairs, got, plain):
            x.close(g, q, 1e-12, "clock", "%s observed at%s" % (p, c))
        # and they are within a period that includes the day
        for lo in range(0, n, 4):
            for hi in range(lo, n, 4):
                ob2 = gmb([(day(a, c), day(b, c), None, None) for a, b in pairs]) if what == "g" else \
                    snowobs([(day(a, c), i) for a, i in pairs])
                ob2.restrict_to_period(day(lo).strftime("%Y-%m-%d") if lo % 8 else day(lo), day(hi))
                keep = [p for p in pairs if (lo <= p[0] and p[1] <= hi if what == "g" else lo <= p[0] <= hi)]
                x.same(len(ob2), len(keep), "period", "observations at%s between days %d and %d" % (c, lo, hi))


def run_change(spec, x):
    """Glaciers that change: the depths are those of the glacier, the weights those of its area at the time."""
    k, w, story, lay = spec.split(".")
    cls, o, names, types = parse(SPECS[int(k)] + "og")
    word = [int(c) for c in WORDS[int(w)]]
    n = len(word)
    rows, ice = lay_rows(lay, "og", names, types)
    c = ice[0]
    days = [START + datetime.timedelta(days=2 + 3 * j) for j in range(len(story))]

    def acts(m, hu, d):
        p = d + "/changes.csv"
        with open(p, "w") as f:
            f.write("hydro_unit," + ",".join(q.isoformat() for q in days) + "\n")
            for i, area, z, _, _, ar in rows[:2]:
                v, out = ar[c], []
                for s in story:
                    v = {"d": v * 0.6, "g": min(v * 1.5 + 0.05 * area, 0.95 * area), "s": v, "z": 0.0}[s]
                    out.append("%.3f" % v)
                f.write("%d,%s\n" % (i, ",".join(out)))
        a = ActionLandCoverChange()
        a.load_from_csv(p, hu, c, "m2", match_with="id")
        m.add_action(a)
    m = run_model(x, cls, o, names, types, rows, word, before=acts)
    ids = [int(i) for i in m.get_recorded_hydro_unit_ids()]
    fr = m.get_recorded_hydro_unit_fractions(c)
    snow, melt, area = {}, {}, {}
    for r in rows:
        i = r[0]
        alone = run_model(x, cls, o, names, types, [r[:5] + ({q: r[1] if q == c else 0.0 for q in names},)], word)
        snow[i] = alone.get_recorded_hydro_unit_values(c + "_snowpack:snow_content")[0]
        melt[i] = alone.get_recorded_hydro_unit_values(c + ":melt:output")[0]
        area[i] = np.nan_to_num(fr[ids.index(i)]) * r[1]
    pairs = [(a, b) for a in range(n) for b in range(a + 1, n)]
    got = gmb([(day(a), day(b), None, None) for a, b in pairs]).simulated(m)
    for (a, b), g in zip(pairs, got):
        v = t = 0.0
        skip = False
        for i in snow:
            ar = area[i][a:b + 1]
            if not ar.any():
                continue
            skip = skip or not ar.all()       # a glacier that comes or goes within the period: no snow outside its time
            v += (snow[i][b] - snow[i][a] - sum(melt[i][a + 1:b + 1])) * ar.mean()
            t += ar.mean()
        if not skip:
            x.close(g, v / t if t else float("nan"), 1e-6, "changing", "balance from day %d to %d" % (a, b))
    x.state(spec)


def snowobs(targets, **kw):
    o = SC(**kw)
    o.targets = [dict(t=t, unit_id=i, value=0.5) for t, i in targets]
    return o


SNOW = [("socont/2.l.dd.-.-.-.1.", "o"), ("socont/2.l.dd.-.-.-.1.", "og"), ("socont/1.r.asp.-.s.c.0.", "gog"),
        ("hbv96/dd.r.1.-.-.-.0.0.1.", "og"), ("hbv96/dd.h.0.t.s.-.0.0.1.", "of"), ("hbv96/dd.r.0.-.-.p.1.1.1.", "ofgl"),
        ("hbv96/asp.-.0.l.-.p.0.0.0.", "ol"), ("hbv96/dd.r.0.-.-.-.0.0.1.", "lgfo"), ("gr4j/1.dd.-.-.-.", "o"),
        ("gr6j/1.cn.-.-.-.", "n"), ("gr4j/0.asp.t.s.c.", "o")]


def run_snow(spec, x):
    """The share of a unit under snow: of each cover, min(1, snow / full cover), weighted by the covers."""
    k, w, full = spec.split(".")
    case, cov = SNOW[int(k)]
    cls, o, names, types = parse(case + cov)
    word = [int(c) for c in WORDS[int(w)]]
    n = len(word)
    rows = unit_rows(names, types)
    m = run_model(x, cls, o, names, types, rows, word)
    ids = [int(i) for i in m.get_recorded_hydro_unit_ids()]
    labels = set(m.get_recorded_labels())
    packed = [c for c in names if c + "_snowpack:snow_content" in labels]
    x.same(packed, [c for c, t in zip(names, types) if t != "lake"], "packs", "covers with snow")
    swe = {c: m.get_recorded_hydro_unit_values(c + "_snowpack:snow_content") for c in packed}
    fulls = float(full)
    for sel in [None] + [list(s) for j in (1, 2) for s in itertools.combinations(packed, j)]:
        cs = sel or packed
        targets, want = [], []
        for i, area, z, _, _, ar in rows + [(99, 1.0, 0, 0, 0, {})]:
            for t in range(-1, n + 1):
                targets.append((day(t), i))
                tot = sum(ar.get(c, 0.0) for c in cs)
                if i == 99 or not 0 <= t < n or not tot:
                    want.append(float("nan"))
                else:
                    r = ids.index(i)
                    want.append(sum(ar[c] * min(1.0, swe[c][r, t] / fulls) for c in cs if ar[c]) / tot)
        ob = snowobs(targets, swe_full=fulls, land_covers=sel)
        got = ob.simulated(m)
        for g, q, t in zip(got, want, targets):
            x.close(g, q, 1e-6, "snow", "snow cover on %s of unit %s, covers %s" % (t[0], t[1], sel))
        part = run_model(x, cls, o, names, types, rows, word, full=False, tell=ob.configure_recording)
        x.close(ob.simulated(part), got, 1e-12, "recording", "snow covers from what the observation asked to record")
        x.dim("snow_covers", len(targets))
    e = refused(lambda: SC(swe_full=-fulls))
    x.check(e is not None, "accepted", "a negative snow depth for a full cover is accepted")
    x.state(spec)


# ------------------------------------------------------------------------------------------------------------- CSV files
NUM = {"ok": "%g", "neg": "-%g"}


def iso(d):
    return d.isoformat()


def dmy(d):
    return d.strftime("%d/%m/%Y")


def eq_targets(x, got, want, what):
    x.same(len(got), len(want), "rows", what + ": number of observations")
    for g, q in zip(got, want):
        for k in q:
            if isinstance(q[k], float):
                x.close(g[k], q[k], 1e-12, "value", "%s: %s" % (what, k))
            elif isinstance(q[k], (datetime.date, datetime.datetime)):
                x.same(pd.Timestamp(g[k]), pd.Timestamp(q[k].isoformat()), "date", "%s: %s" % (what, k))
            else:
                x.same(g[k], q[k], "field", "%s: %s" % (what, k))


# kinds of rows: good, negative, no value, no start, no end, value that is a text, date that is not one, other glacier
GROWS = "gnvsetdo"


def run_gcsv(spec, x):
    mode, unit, band, by, skip, rng, word = spec.split(".")
    k = {"mm": 1.0, "m": 1000.0}[unit]
    d = x.dir()
    fmt = dmy if mode == "dmy" else iso
    cols = ["who", "start", "end", "mb", "lo", "hi"]
    month = {"Oct": 10, "Jan": 1, "n4": 4, "Sep": 9}.get(mode)
    if month:
        cols[1:3] = ["year", "note"]
    lines, want = [], []
    for j, c in enumerate(word):
        t0 = datetime.date(1998 + 2 * j % 7, month or (j % 12 + 1), 1 if month else 3 + j)
        t1 = (datetime.date(t0.year + 1, t0.month, 1) - datetime.timedelta(days=1)) if month else t0 + datetime.timedelta(days=200 + 13 * j)
        v = (123.25 + 50 * j) * (-1 if c == "n" else 1)
        f = dict(who="B1" if c != "o" else "B2", mb=repr(v / k), lo=str(1000 + 100 * j), hi=str(1100 + 100 * j))
        if month:
            f.update(year=str(t0.year), note="x")
        else:
            f.update(start=fmt(t0), end=fmt(t1))
        good = c in "gn" or c == "o" and by != "w" or month and c == "e"
        if c == "v":
            f["mb"] = ""
        elif c == "t":
            f["mb"] = "n/a?"
        elif c == "s":
            f["year" if month else "start"] = ""
        elif c == "e":
            f["note" if month else "end"] = ""
        elif c == "d":
            f["year" if month else "start"] = "soon"
        lines.append(",".join(f[q] for q in cols))
        if good:
            want.append(dict(t0=t0, t1=t1, value=float(f["mb"]) * k, balance_type="winter",
                             band_lo=float(f["lo"]) if band == "b" else None, band_hi=float(f["hi"]) if band == "b" else None))
    with open(d + "/mb.csv", "w") as f:
        f.write("".join("some remark %d\n" % j for j in range(int(skip))))
        f.write(",".join(cols) + "\n" + "".join(q + "\n" for q in lines))
    kw = dict(value_unit={"mm": "mm_we", "m": "m_we"}[unit], skiprows=int(skip))
    name = (lambda c: cols.index(c)) if by == "i" else (lambda c: c)
    if band == "b":
        kw.update(band_lo_col=name("lo"), band_hi_col=name("hi"))
    if by == "w":
        kw.update(glacier_id_col="who", glacier_id="B1")
    if month:
        kw.update(year_col=name("year"), hydro_year_start={"Oct": "October", "Jan": 1, "n4": "april", "Sep": 9}[mode])
    else:
        kw.update(date_start_col=name("start"), date_end_col=name("end"), date_format="%d/%m/%Y" if mode == "dmy" else None)
    lo, hi = {"-": (None, None), "s": (datetime.date(1999, 1, 1), None), "e": (None, datetime.date(2002, 6, 1)),
              "b": (datetime.date(1998, 6, 1), datetime.date(2003, 12, 31))}[rng]
    kw.update(start_date=lo and lo.isoformat(), end_date=hi and pd.Timestamp(hi.isoformat()))
    want = [t for t in want if not (lo and t["t0"] < lo) and not (hi and t["t1"] > hi)]
    load = lambda: GMB.from_csv(d + "/mb.csv", name("mb"), "winter", metric="mae", weight=2.5, mode="constraint", tolerance=3.0, **kw)
    if by == "w" and all(c == "o" for c in word):
        x.check(refused(load) is not None, "accepted", "a glacier that is not in the file is accepted")
        return
    o = load()
    eq_targets(x, o.targets, want, "balances")
    x.same((o.metric, o.weight, o.mode, o.tolerance, o.relative_tolerance, o.granularity, len(o)),
           ("mae", 2.5, "constraint", 3.0, None, "elevationbins" if band == "b" else "whole", len(want)), "options", "options")
    x.close(o.observed(), np.array([t["value"] for t in want]), 1e-12, "observed", "observed values")
    x.step(len(word))
    x.state(spec)


def run_glamos(spec, x):
    kind, heads, which, sel, rng, word = spec.split(".")
    d = x.dir()
    bins = kind == "bins"
    H = ["The data of the network are free,,", "When using these data, please cite as:", "GLAMOS (2025). Mass Balance, release 2025, doi", "",
         "SWISS GLACIER MASS BALANCE", "",
         "glacier name,glacier id,start date of observation,end date of winter observation,end date of observation,winter,summer,annual",
         ",(inventory),date_start,date_end_winter,date_end,Bw,Bs,Ba", ",,yyyy-mm-dd (ISO 8601),yyyy-mm-dd (ISO 8601),yyyy-mm-dd (ISO 8601),mm,mm,mm"]
    lines, want = H[len(H) - int(heads):], []
    types = [t for t, c in (("annual", "a"), ("winter", "w"), ("summer", "s")) if c in which]
    if which == "wa":
        types = ["winter", "annual"]
    rows = []
    for j, c in enumerate(word):
        # good, the other way to write dates, a mix, no winter end, no annual balance, another glacier, no end, a remark
        a, b, e = datetime.date(1999 + j, 10, 1 + j), datetime.date(2000 + j, 4, 30 - j), datetime.date(2000 + j, 9, 12)
        f = [dmy if c == "d" or c == "m" and q != 1 else iso for q in range(3)]
        v = dict(winter=500.0 + j, summer=-900.0 - j, annual=-400.5 + j)
        txt = {q: "%g" % v[q] for q in v}
        D = [f[0](a), f[1](b), f[2](e)]
        who = "B43-03"
        if c == "w":
            D[1], b = "", None
        elif c == "a":
            txt["annual"], v["annual"] = "", None
        elif c == "o":
            who = "A10-01"
        elif c == "e":
            D[2], e = "", None
        elif c == "r":
            lines.append("a remark at the end")
            continue
        z = (2000.0 + 100 * j, 2100.0 + 100 * j)
        lines.append(",".join(["Some glacier", who] + D + [txt["winter"], txt["summer"], txt["annual"]] +
                              (["0.5", "%g" % z[0], "%g" % z[1]] if bins else ["2900", "50", "19.1"]) +
                              [" VAW / ETH Zuerich", " Huss et al. 2015" + ", and more" * (j % 3)]))
        rows.append((who, a, b, e, v, z))
    with open(d + "/g.csv", "w") as f:
        f.write("".join(q + "\n" for q in lines))
    lo, hi = {"-": (None, None), "b": (datetime.date(2000, 6, 1), datetime.date(2003, 12, 31))}[rng]
    for t in types:
        for who, a, b, e, v, z in rows:
            if sel == "1" and who != "B43-03" or a is None or e is None:
                continue
            p = {"annual": (a, e), "winter": (a, b), "summer": (b, e)}[t]
            if None in p or v[t] is None or lo and (p[0] < lo or p[1] > hi):
                continue
            want.append(dict(t0=p[0], t1=p[1], value=v[t], balance_type=t, band_lo=z[0] if bins else None, band_hi=z[1] if bins else None))
    load = lambda: GMB.from_glamos(d + "/g.csv", "elevationbins" if bins else "whole", glacier_id="B43-03" if sel == "1" else None,
                                   balance_types=types, start_date=lo and lo.isoformat(), end_date=hi and hi.isoformat(), weight=0.5)
    dated = [r for r in rows]
    if not dated or sel == "1" and not any(r[0] == "B43-03" and r[3] for r in rows):
        x.check(refused(load) is not None, "accepted", "a file without the glacier is accepted")
        return
    o = load()
    eq_targets(x, o.targets, want, "GLAMOS balances")
    x.same((o.weight, o.granularity), (0.5, "elevationbins" if bins else "whole"), "options", "options")
    x.step(len(word))
    x.state(spec)


def run_scsv(spec, x):
    mode, lim, by, skip, rng, word = spec.split(".")
    d = x.dir()
    fmt = {"iso": iso, "dmy": dmy, "clock": lambda q: q.isoformat() + " 10:30:00"}[mode]
    scale = 0.01
    cols = ["note", "unit", "scf", "date"]
    lines, want = [], []
    vmin, vmax = {"-": (None, None), "u": (None, 100.0), "b": (0.0, 100.0), "l": (10.0, None)}[lim]
    for j, c in enumerate(word):
        # good, nothing, no date, no unit, cloud code, negative code, text, exactly the limits
        t = datetime.date(2001, 1 + j % 12, 5 + 2 * j)
        v = {"g": 37.5 + j, "c": 250.0, "n": -1.0, "f": 100.0, "z": 0.0}.get(c, 55.0)
        f = dict(note="x", unit=str(j % 3 + 1), scf="%g" % v, date=fmt(t))
        good = c in "gcnfz" and (vmin is None or v >= vmin) and (vmax is None or v <= vmax)
        if c == "v":
            f["scf"] = ""
        elif c == "t":
            f["scf"] = "cloud"
        elif c == "d":
            f["date"] = ""
        elif c == "u":
            f["unit"] = ""
        lines.append(",".join(f[q] for q in cols))
        if good:
            want.append(dict(t=t if mode != "clock" else datetime.datetime(t.year, t.month, t.day, 10, 30), unit_id=j % 3 + 1, value=v * scale))
    with open(d + "/sc.csv", "w") as f:
        f.write("".join("remark\n" for j in range(int(skip))) + ",".join(cols) + "\n" + "".join(q + "\n" for q in lines))
    name = (lambda c: cols.index(c)) if by == "i" else (lambda c: c)
    lo, hi = {"-": (None, None), "b": (datetime.date(2001, 2, 9), datetime.date(2001, 4, 17))}[rng]
    o = SC.from_csv(d + "/sc.csv", date_col=name("date"), unit_col=name("unit"), value_col=name("scf"), value_scale=scale, valid_min=vmin,
                    valid_max=vmax, date_format="%d/%m/%Y" if mode == "dmy" else None, start_date=lo and lo.isoformat(),
                    end_date=hi and hi.isoformat(), skiprows=int(skip), swe_full=70.0, land_covers=["a"], weight=0.25)
    dd = lambda t: t.date() if isinstance(t, datetime.datetime) else t
    want = [q for q in want if not lo or lo <= dd(q["t"]) <= hi]
    eq_targets(x, o.targets, want, "snow covers")
    x.same((o.swe_full, o.land_covers, o.weight, o.metric, o.mode), (70.0, ["a"], 0.25, "rmse", "objective"), "options", "options")
    # written and read back
    if want:
        o.to_csv(d + "/back.csv")
        b = SC.from_csv(d + "/back.csv", date_col="date", unit_col="unit_id", value_col="value")
        eq_targets(x, b.targets, [dict(t=q["t"], unit_id=q["unit_id"], value=q["value"]) for q in want], "written and read")
    x.step(len(word))
    x.state(spec)


# -------------------------------------------------------------------------------------------------------------- rasters
class Stand:
    """Rasters and stacks of rasters, standing in for rioxarray: only same-grid and nearest-pixel matching."""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise ShimMissing("raster stand-in: " + name)


class Rio(Stand):
    def __init__(self, da):
        self._da = da

    @property
    def nodata(self):
        return self._da._nodata

    @property
    def crs(self):
        return self._da._crs

    def set_spatial_dims(self, x_dim, y_dim, inplace=False):
        a = self._da if inplace else self._da._copy()
        a._sx, a._sy = x_dim, y_dim
        return a

    def write_crs(self, crs, inplace=False):
        a = self._da if inplace else self._da._copy()
        a._crs = str(crs)
        return a

    @property
    def x_dim(self):
        return self._da._sx

    @property
    def y_dim(self):
        return self._da._sy

    def reproject_match(self, other, resampling=0, nodata=np.nan):
        """The pixel of this raster in which the centre of each pixel of the other is."""
        a = self._da
        if resampling != 0:
            raise ShimMissing("resampling")
        if a._crs is None or SAME.get(a._crs, a._crs) != SAME.get(other._crs, other._crs):
            raise ShimMissing("reprojection")

        def find(src, dst):
            h = abs(src[1] - src[0]) if len(src) > 1 else 1.0
            out = []
            for p in dst:
                near = min(range(len(src)), key=lambda i: abs(src[i] - p))
                out.append(near if abs(src[near] - p) <= h / 2 + 1e-6 else -1)
            return np.array(out)
        ix, iy = find(a.coords[a._sx], other.coords["x"]), find(a.coords[a._sy], other.coords["y"])
        dims = [q for q in a.dims if q not in (a._sx, a._sy)] + [a._sy, a._sx]
        v = a.transpose(*dims).values
        got = v[..., iy, :][..., ix].astype(float)
        got[..., iy < 0, :] = nodata
        got[..., ix < 0] = nodata
        co = {q: a.coords[q] for q in dims if q in a.coords}
        co.update({a._sx: other.coords["x"], a._sy: other.coords["y"]})
        r = DA(got, dims, co, a._crs)
        r._sx, r._sy = a._sx, a._sy
        return r


SAME = {}


class DA(Stand):
    def __init__(self, values, dims, coords, crs=None, nodata=None):
        self.values, self.dims, self.coords, self._crs, self._nodata = np.asarray(values), tuple(dims), dict(coords), crs, nodata
        self._sx, self._sy = "x", "y"

    def _copy(self, **kw):
        a = DA(self.values, self.dims, self.coords, self._crs, self._nodata)
        a._sx, a._sy = self._sx, self._sy
        for k, v in kw.items():
            setattr(a, k, v)
        return a

    def squeeze(self, drop=False):
        return self

    @property
    def rio(self):
        return Rio(self)

    @property
    def shape(self):
        return self.values.shape

    @property
    def dtype(self):
        return self.values.dtype

    def astype(self, t):
        return self._copy(values=self.values.astype(t))

    def transpose(self, *dims):
        if set(dims) != set(self.dims):
            raise ValueError("%r must be a permutation of %r" % (dims, self.dims))
        return self._copy(values=np.transpose(self.values, [self.dims.index(q) for q in dims]), dims=tuple(dims))

    def __getitem__(self, k):
        if isinstance(k, str):
            return DA(np.asarray(self.coords[k]), (k,), {k: self.coords[k]})
        raise ShimMissing("raster stand-in: indexing")

    def rename(self, m):
        return self._copy(dims=tuple(m.get(q, q) for q in self.dims), coords={m.get(q, q): v for q, v in self.coords.items()})

    def assign_coords(self, **kw):
        co = dict(self.coords)
        for k, v in kw.items():
            co[k] = np.asarray(v[1] if isinstance(v, tuple) else v)
        return self._copy(coords=co)


class DS(Stand):
    def __init__(self, path):
        with open(path) as f:
            j = json.load(f)
        self.attrs = j.get("attrs", {})
        self._v = {}
        for n, v in j["vars"].items():
            a = np.array([[np.nan if q is None else q for q in r] for r in np.array(v["values"], dtype=object).reshape(-1, v["shape"][-1])],
                         dtype=float).reshape(v["shape"])
            co = {k: (np.array(c, dtype="datetime64[ns]") if k in ("time", "t") else np.array(c, dtype=float)) for k, c in v["coords"].items()}
            self._v[n] = DA(a, v["dims"], co, v.get("crs"))

    @property
    def data_vars(self):
        return self._v

    def __getitem__(self, k):
        return self._v[k]


class XR(Stand):
    @staticmethod
    def open_dataset(path, **kw):
        for k in kw:
            if k not in ("chunks", "engine", "group"):
                raise ShimMissing("open_dataset(%s)" % k)
        XR.read.append(str(path))
        return DS(path)

    @staticmethod
    def open_mfdataset(files, **kw):
        s = [XR.open_dataset(f, **kw) for f in files]
        for n in s[0]._v:
            parts = sorted((q[n] for q in s), key=lambda a: a.coords[a.dims[0]][0])
            s[0]._v[n] = parts[0]._copy(values=np.concatenate([p.values for p in parts]),
                                        coords=dict(parts[0].coords, **{parts[0].dims[0]: np.concatenate([p.coords[p.dims[0]] for p in parts])}))
        return s[0]


class RXR(Stand):
    @staticmethod
    def open_rasterio(path):
        with open(path) as f:
            j = json.load(f)
        return DA(np.array(j["values"]), ("y", "x"), {"y": np.array(j["y"], dtype=float), "x": np.array(j["x"], dtype=float)},
                  j["crs"], j["nodata"])


def merge_arrays(arrays, nodata=None):
    """The first array that has a value, on the union of the grids."""
    if nodata is None or nodata == nodata:
        raise ShimMissing("merge_arrays(nodata)")
    xs = np.array(sorted({round(float(v), 6) for a in arrays for v in a.coords["x"]}))
    ys = np.array(sorted({round(float(v), 6) for a in arrays for v in a.coords["y"]}, reverse=True))
    out = np.full((len(ys), len(xs)), np.nan)
    for a in arrays:
        for i, y in enumerate(a.coords["y"]):
            for j, q in enumerate(a.coords["x"]):
                r, c = int(np.argmin(abs(ys - y))), int(np.argmin(abs(xs - q)))
                if np.isnan(out[r, c]):
                    out[r, c] = a.values[i, j]
    return DA(out, ("y", "x"), {"y": ys, "x": xs}, arrays[0]._crs)


def stand_in():
    XR.read = []
    scmod.xr, scmod.rxr = XR(), RXR()
    scmod.HAS_RASTERIO = scmod.HAS_RIOXARRAY = scmod.HAS_NETCDF = True
    scmod.is_module_available = lambda name: True
    for name in ("rasterio", "rasterio.enums", "rioxarray", "rioxarray.merge"):
        sys.modules.setdefault(name, pytypes.ModuleType(name))
    sys.modules["rasterio.enums"].Resampling = pytypes.SimpleNamespace(nearest=0, bilinear=1, average=5)
    sys.modules["rioxarray.merge"].merge_arrays = merge_arrays


def write_raster(path, units, nodata, crs="epsg:2056", x0=0.0, y0=0.0, res=1.0):
    ny, nx = len(units), len(units[0])
    with open(path, "w") as f:
        json.dump(dict(values=units, nodata=nodata, crs=crs, x=[x0 + (j + 0.5) * res for j in range(nx)],
                       y=[y0 - (i + 0.5) * res for i in range(ny)]), f)


def write_stack(path, stack, times, crs="epsg:2056", dims=("time", "y", "x"), var="scf", extra=False, res=1.0):
    a = np.array(stack, dtype=object)
    co = dict(zip(dims, ([t.isoformat() for t in times], [-(i + 0.5) * res for i in range(a.shape[1])], [(j + 0.5) * res for j in range(a.shape[2])])))
    v = dict(values=a.tolist(), shape=list(a.shape), dims=list(dims), coords=co, crs=crs)
    with open(path, "w") as f:
        json.dump(dict(vars={var: v, "other": v} if extra else {var: v}), f)


MAPS = {
    "a": ([[1, 1, 2], [2, 1, -9]], -9), "b": ([[0, 5, 5], [3, 3, 3]], None), "c": ([[7, 7], [7, 4]], 4), "d": ([[1, 2], [3, 4]], 0),
    "e": ([[2, 2, 2, 2]], -1),
}
PIX = [0.0, 40.0, 100.0, 250.0, None, 255.0]
LIMITS = {"-": (None, None, None), "n": (255.0, None, None), "x": (None, None, 100.0), "b": (None, 1.0, 100.0), "nb": (250.0, 0.0, 254.0)}


def aggregate(x, targets, umap, nodata_u, stack, times, lim, ratio, scale, ids, lo, hi, what):
    nod, vmin, vmax = lim
    uids = ids if ids is not None else sorted({u for r in umap for u in r if u > 0 and u != nodata_u})
    want = []
    for t, layer in zip(times, stack):
        if lo and t.date() < lo or hi and t.date() > hi:
            continue
        for u in uids:
            pix = [layer[i][j] for i in range(len(umap)) for j in range(len(umap[0])) if umap[i][j] == u]
            ok = [p for p in pix if p is not None and p != nod and (vmin is None or p >= vmin) and (vmax is None or p <= vmax)]
            if ok and len(ok) / len(pix) >= ratio:
                want.append(dict(t=t, unit_id=u, value=sum(ok) / len(ok) * scale))
    eq_targets(x, targets, want, what)
    x.step(len(stack))
    x.dim("aggregates", len(want))


def all_layers(umap):
    """Layers in which the pixels of each unit take every combination of values."""
    where = {}
    for i, r in enumerate(umap):
        for j, u in enumerate(r):
            where.setdefault(u, []).append((i, j))
    n = max(len(PIX) ** min(3, len(p)) for p in where.values())
    layers = []
    for k in range(n):
        a = [[None] * len(umap[0]) for _ in umap]
        for s, (u, p) in enumerate(sorted(where.items())):
            v = k * (s + 1) + 5 * s
            for q, (i, j) in enumerate(p):
                a[i][j] = PIX[(v // len(PIX) ** q if q < 3 else v // 7) % len(PIX)]
        layers.append(a)
    return layers


def run_stack(spec, x):
    """Stacks on the grid of the units."""
    stand_in()
    mp, lim, ratio, ids, fmt = spec.split("/")
    umap, nod = MAPS[mp]
    layers = all_layers(umap)
    times = [datetime.datetime(2010, 1, 1) + datetime.timedelta(days=k) for k in range(len(layers))]
    d = x.dir()
    write_raster(d + "/u.tif", umap, nod)
    kw = {}
    want_ids = None
    if ids == "s":
        want_ids = sorted({u for r in umap for u in r if u > 0 and u != nod})[-1:] + [77]
        kw["hydro_units"] = {"id": np.array(want_ids)}
    dims, crs = ("time", "y", "x"), "epsg:2056"
    if fmt == "flip":
        dims, crs = ("t", "lat", "lon"), None
        kw.update(dim_time="t", dim_y="lat", dim_x="lon")
    elif fmt == "crs":
        crs = None
        kw.update(data_crs=2056)
    lo = hi = None
    if fmt == "period":
        lo, hi = datetime.date(2010, 1, 4), datetime.date(2010, 1, 25)
        kw.update(start_date="2010-01-04", end_date="2010-01-25")
    f = d + "/s.nc"
    if fmt == "files":
        h = len(layers) // 2
        write_stack(d + "/s2.nc", layers[:h], times[:h])
        write_stack(d + "/s1.nc", layers[h:], times[h:])
        f = d
        kw.update(file_pattern="s*.nc")
    else:
        write_stack(f, layers, times, crs=crs, dims=dims, extra=fmt == "two")
    if fmt == "two":
        load = lambda: SC.from_netcdf(f, d + "/u.tif", **kw)
        x.check(refused(load) is not None, "accepted", "a file of two variables is read without saying which")
        kw.update(var_name="scf")
    go = SC.from_hdf5 if fmt == "h5" else SC.from_netcdf
    o = go(f, d + "/u.tif", value_scale=0.01, nodata=LIMITS[lim][0], valid_min=LIMITS[lim][1], valid_max=LIMITS[lim][2],
           min_valid_ratio=float(ratio), swe_full=55.0, weight=3.0, **kw)
    aggregate(x, o.targets, umap, nod, layers, times, LIMITS[lim], float(ratio), 0.01, want_ids, lo, hi, "aggregates of " + spec)
    x.same((o.swe_full, o.weight), (55.0, 3.0), "options", "options")
    # other stacks than those of the grid are refused or matched
    if fmt == "crs":
        write_stack(f, [[[1.0]]], times[:1], crs=None)
        x.check(refused(lambda: SC.from_netcdf(f, d + "/u.tif")) is not None, "accepted", "a stack on an unknown grid is accepted")
    x.state(spec)


META = ("GROUP=GridStructure\n\tGROUP=GRID_1\n\t\tXDim=%d\n\t\tYDim=%d\n\t\tUpperLeftPointMtrs=(%f,%f)\n\t\tLowerRightMtrs=(%f,%f)\n"
        "\t\tProjection=GCTP_SNSOID\n\t\tProjParams=(6371007.181000,0,0,0,0,0,0,0,0,0,0,0,0)\n")


def write_tile(path, values, x0, y0, res, var="NDSI_Snow_Cover"):
    ny, nx = len(values), len(values[0])
    v = dict(values=values, shape=[ny, nx], dims=["YDim", "XDim"], coords={})
    with open(path, "w") as f:
        json.dump(dict(vars={var: v}, attrs={"StructMetadata.0": META % (nx, ny, x0, y0, x0 + nx * res, y0 - ny * res)}), f)


SINU = "+proj=sinu +lon_0=0 +x_0=0 +y_0=0 +a=6371007.181 +b=6371007.181 +units=m +no_defs"


def run_modis(spec, x):
    """Tiles of one date, put together and read where the units are."""
    stand_in()
    mp, lay, ratio, ids, period = spec.split("/")
    umap, nod = MAPS[mp]
    d = x.dir()
    ny, nx = len(umap), len(umap[0])
    res = 500.0
    write_raster(d + "/u.tif", umap, nod, crs=SINU, x0=1000.0, y0=4000.0, res=res)
    layers = all_layers(umap)[::3]
    layers = [l for l in layers if any(v is not None for r in l for v in r)]
    times = []
    os.makedirs(d + "/t")
    for k, l in enumerate(layers):
        t = datetime.datetime(2011, 12, 1) + datetime.timedelta(days=2 * k)
        times.append(t)
        tag = d + "/t/MOD10A1.A%s.h%%02dv04.061.2025363025242.hdf" % t.strftime("%Y%j")
        if lay == "one":                  # a wider tile
            big = [[250.0] * (nx + 2) for _ in range(ny + 3)]
            for i in range(ny):
                for j in range(nx):
                    big[i + 1][j + 2] = l[i][j]
            write_tile(tag % 18, big, 1000.0 - 2 * res, 4000.0 + res, res)
        elif lay == "split":              # two tiles side by side
            h = max(1, nx // 2)
            write_tile(tag % 19, [r[h:] + [0.0] for r in l], 1000.0 + h * res, 4000.0, res)
            write_tile(tag % 18, [r[:h] for r in l], 1000.0, 4000.0, res)
        elif lay == "part":               # the tile ends within the units
            write_tile(tag % 18, [r[:nx - 1] for r in l], 1000.0, 4000.0, res)
            l = layers[k] = [r[:nx - 1] + [None] for r in l]
        else:                             # coarser pixels: two by two
            big = [[l[min(2 * i, ny - 1)][min(2 * j, nx - 1)] for j in range((nx + 1) // 2)] for i in range((ny + 1) // 2)]
            layers[k] = [[big[i // 2][j // 2] for j in range(nx)] for i in range(ny)]
            big = [r + [250.0] for r in big] + [[250.0] * (len(big[0]) + 1)]
            write_tile(tag % 18, big, 1000.0, 4000.0, 2 * res)
    kw, want_ids, lo, hi = {}, None, None, None
    if ids == "s":
        want_ids = [77] + sorted({u for r in umap for u in r if u > 0 and u != nod})[:1]
        kw["hydro_units"] = {"id": np.array(want_ids)}
    if period == "p":
        lo, hi = datetime.date(2011, 12, 9), datetime.date(2012, 1, 14)
        kw.update(start_date="2011-12-09", end_date="2012-01-14")
    elif period == "e":
        lo, hi = datetime.date(2031, 1, 1), datetime.date(2031, 1, 1)
        kw.update(start_date="2031-01-01")
    elif period == "f":
        kw.update(date_parser=lambda n: pd.to_datetime(n.split(".")[1][1:], format="%Y%j"), date_regex="nothing")
    o = SC.from_modis(d + "/t", d + "/u.tif", min_valid_ratio=float(ratio), **kw)
    aggregate(x, o.targets, umap, nod, layers, times, (None, 0.0, 100.0), float(ratio), 0.01, want_ids, lo, hi, "MODIS " + spec)
    x.check(refused(lambda: SC.from_modis(d + "/t", d + "/u.tif", file_pattern="*.nothing"), FileNotFoundError) is not None, "accepted",
            "a folder without tiles is accepted")
    x.state(spec)


# requests that differ in one thing
def requests(kind, d):
    base = dict(min_valid_ratio=0.0)
    V = [("as it is", {}), ("ratio", dict(min_valid_ratio=0.9)), ("scale", dict(value_scale=0.5)), ("max", dict(valid_max=50.0)),
         ("min", dict(valid_min=30.0)), ("nodata", dict(nodata=40.0)), ("one unit", dict(hydro_units={"id": np.array([2])})),
         ("other unit", dict(hydro_units={"id": np.array([1])})), ("both units", dict(hydro_units={"id": np.array([2, 1])})),
         ("from", dict(start_date="2012-01-03")), ("until", dict(end_date="2012-01-03")), ("map", dict(_map="u2.tif")),
         ("file", dict(_path="b")), ("changed", dict(_touch=1)), ("snow", dict(swe_full=33.0, weight=7.0, land_covers=["q"]))]
    if kind == "m":
        V += [("variable", dict(variable="Other")), ("regex", dict(date_regex=r"v04\.(\d{7})")), ("format", dict(date_format="%Y%H%M")),
              ("parser", dict(date_parser=lambda n: pd.Timestamp("2013-05-05"))), ("parser 2", dict(date_parser=lambda n: pd.Timestamp("2013-06-06"))),
              ("pattern", dict(file_pattern="*A2012002*"))]
    else:
        V += [("variable", dict(var_name="other")), ("pattern", dict(file_pattern="s1*"))]
    return base, V


def run_cache(spec, x):
    """A cache never changes what is loaded, whatever was loaded before."""
    stand_in()
    kind, a, b = spec.split("/")
    d = x.dir()
    umap = [[1, 1, 2], [2, 1, 0]]
    base, V = requests(kind, d)
    layers = [[[0.0, 40.0, 100.0], [20.0, 60.0, 250.0]], [[90.0, 40.0, None], [20.0, 33.0, 1.0]], [[5.0, None, 40.0], [255.0, 60.0, 3.0]],
              [[10.0, 20.0, 30.0], [40.0, 50.0, 60.0]]]
    times = [datetime.datetime(2012, 1, k + 1) for k in range(4)]
    res = 1.0
    crs = SINU if kind == "m" else "epsg:2056"
    write_raster(d + "/u.tif", umap, 0, crs=crs)
    write_raster(d + "/u2.tif", [[1, 2, 2], [2, 1, 0]], 0, crs=crs)

    def data(flip):
        for sub, s in (("a", 0.0), ("b", 1.0)):
            os.makedirs(d + "/" + sub, exist_ok=True)
            for k, (t, l) in enumerate(zip(times, layers)):
                l = [[None if v is None else 99.0 if flip and v == 10.0 else 50.0 if flip and v == 40.0 else v + s for v in r] for r in l]
                p = d + "/%s/s%d.A%s.v04.%s.nc" % (sub, k // 2, t.strftime("%Y%j"), (t + datetime.timedelta(days=9)).strftime("%Y%j"))
                if kind == "m":
                    write_tile(p, l, 0.0, 0.0, res)
                    with open(p) as f:
                        j = json.load(f)
                    j["vars"]["Other"] = dict(j["vars"]["NDSI_Snow_Cover"], values=[[1.0] * 3] * 2)
                    with open(p, "w") as f:
                        json.dump(j, f)
                else:
                    write_stack(p, [l], [t], extra=True)
                stamp = 10 ** 18 + (999000 if flip else 0) + (5 * 10 ** 9 if sub == "b" else 0)
                os.utime(p, ns=(stamp, stamp))
    data(False)

    def go(v, cache):
        kw = dict(base)
        kw.update(file_pattern="*.nc")
        if kind == "n":
            kw.update(var_name="scf")
        kw.update({k: q for k, q in v.items() if k[0] != "_"})
        if "_touch" in v:
            data(True)
        f = SC.from_modis if kind == "m" else SC.from_netcdf
        r = f(d + "/" + v.get("_path", "a"), d + "/" + v.get("_map", "u.tif"), cache_dir=d + "/cache" if cache else None, **kw)
        return r
    r0 = go(V[int(a)][1], True)
    n0 = len(XR.read)
    r1 = go(V[int(b)][1], True)
    plain = go(V[int(b)][1], False)
    key = lambda r: sorted((str(t["t"]), t["unit_id"], t["value"]) for t in r.targets)
    A, B = key(r1), key(plain)
    x.check([q[:2] for q in A] == [q[:2] for q in B] and all(abs(p[2] - q[2]) <= 1e-9 for p, q in zip(A, B)), "cache",
            "after a request '%s', '%s' gives %s instead of %s", V[int(a)][0], V[int(b)][0], A[:6], B[:6])
    for t in ("swe_full", "weight", "land_covers", "metric", "mode"):
        x.same(getattr(r1, t), getattr(plain, t), "cache", "option %s after a cached load" % t)
    x.state(spec)


def cases(tier):
    full = tier == "thorough"
    for k in range(len(SPECS)):
        for cov in PARTS:
            for w in range(len(WORDS)):
                for lay in LAYS:
                    if full or (w + k) % 3 == 0 and lay in "abc" or lay == "d" and w < 2:
                        yield "mb/%d.%s.%d.%s" % (k, cov, w, lay)
    for w in "gs":
        for lay in "ac":
            yield "clock/%s.%s" % (w, lay)
    for k in (0, 1, 4, 5):
        for n in (1, 2, 3):
            for s in itertools.product("dgsz", repeat=n):
                for w in (1, 2, 5) if full else (1,):
                    for lay in "ac":
                        yield "change/%d.%d.%s.%s" % (k, w, "".join(s), lay)
    for k in range(len(SNOW)):
        for w in range(len(WORDS)):
            for f in ("100", "7", "30"):
                if full or (w + k) % 2 == 0:
                    yield "snow/%d.%d.%s" % (k, w, f)
    gw = ["".join(w) for w in itertools.product(GROWS, repeat=3 if full else 2)] + ["gggggg", "gvnsgetdogn", "ooo"]
    for mode in ("iso", "dmy", "Oct", "Jan", "n4", "Sep"):
        for unit, band, by, skip, rng in itertools.product(("mm", "m"), "-b", "nwi", "03", "-seb"):
            for j, w in enumerate(gw):
                if full or (j + len(band) + ord(by) + ord(rng) + ord(mode[0]) + int(skip)) % 6 == 0 or len(w) > 3:
                    yield "gcsv/%s.%s.%s.%s.%s.%s.%s" % (mode, unit, band, by, skip, rng, w)
    lw = ["".join(w) for w in itertools.product("gdmwaoer", repeat=3 if full else 2)] + ["gdmwaoergg", "ggggr", "gdgdgd"]
    for kind, heads, which, sel, rng in itertools.product(("whole", "bins"), "0369", ("a", "aw", "wa", "aws", "s"), "-1", "-b"):
        for j, w in enumerate(lw):
            if full or (j + int(heads) // 3 + len(which) + ord(sel) + ord(rng)) % 8 == 0 or len(w) > 3:
                yield "glamos/%s.%s.%s.%s.%s.%s" % (kind, heads, which, sel, rng, w)
    sw = ["".join(w) for w in itertools.product("gvtducnfz", repeat=3 if full else 2)] + ["gggggg", "gvgtgdgugcgn", "zfzfz"]
    for mode, lim, by, skip, rng in itertools.product(("iso", "dmy", "clock"), "-ubl", "ni", "02", "-b"):
        for j, w in enumerate(sw):
            if len(w) > 12:
                continue
            if full or (j + ord(lim) + ord(by) + ord(rng) + len(mode)) % 4 == 0 or len(w) > 3:
                yield "scsv/%s.%s.%s.%s.%s.%s" % (mode, lim, by, skip, rng, w)
    for mp, lim, ratio, ids in itertools.product(MAPS, LIMITS, ("0", "0.34", "0.5", "0.67", "1"), "-s"):
        for fmt in ("-", "flip", "crs", "period", "files", "two", "h5"):
            if full or fmt == "-" or lim == "nb" and ratio in ("0.5", "1"):
                yield "stack/%s/%s/%s/%s/%s" % (mp, lim, ratio, ids, fmt)
    for mp, lay, ratio, ids, period in itertools.product("abde", ("one", "split", "part", "coarse"), ("0", "0.5", "1"), "-s", "-pef"):
        yield "modis/%s/%s/%s/%s/%s" % (mp, lay, ratio, ids, period)
    for kind in "nm":
        n = len(requests(kind, "")[1])
        for a in range(n):
            for b in range(n):
                yield "cache/%s/%d/%d" % (kind, a, b)


def run(case, x):
    kind, spec = case.split("/", 1)
    globals()["run_" + kind](spec, x)
