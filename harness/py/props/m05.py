"""M05: results read back from the file are the results of the run: labels, values, areas, dates and their area-weighted means."""
import contextlib
import datetime
import io

from props.common import *
import hydrobricks.actions as actions
from hydrobricks.evaluation.base import RecordingRequest
from hydrobricks.results import Results

MODELS = ("socont/1.l.dd.-.-.-.1.o", "socont/1.r.dd.c.-.-.0.og", "socont/2.r.ti.s.s.c.1.gog", "socont/1.l.asp.-.s.p.1.og",
          "hbv96/dd.r.1.l.-.-.0.0.1.o", "hbv96/dd.h.0.t.s.p.0.1.1.of", "hbv96/ti.h.1.-.-.-.1.0.0.og", "hbv96/dd.r.1.l.-.-.0.0.1.ol",
          "hbv96/dd.r.1.l.s.p.0.1.1.ofgl", "hbv96/asp.h.0.l.-.-.1.0.1.lgfo", "hbv96/dd.-.0.-.-.-.0.1.1.f",
          "gr4j/1.-.-.-.-.o", "gr4j/1.cn.-.-.-.o", "gr6j/0.dd.l.s.c.n")
WORDS = {"2": (1, 5), "4": (1, 2, 5, 4), "7": (1, 3, 1, 2, 5, 4, 4), "12": (1, 2, 3, 1, 5, 4, 4, 0, 1, 5, 3, 4)}
NAMES = {"-": None,                                  # names one of which ends like another
         "s": {"open": "island", "lake": "land", "ice": "land", "debris": "inland", "pond": "land", "soil": "island"}}


def cases(tier):
    full = tier == "thorough"
    for m, w, names, change in itertools.product(MODELS, WORDS, NAMES, "01"):
        if w == "12" and not full or change == "1" and ("g" not in m.rsplit(".", 1)[1] or w == "2"):
            continue
        if names == "s" and w not in ("4", "7"):
            continue
        for start in ("2000-02-27", "1999-12-30") if w == "4" or full else ("2000-02-27",):
            yield "%s/%s/%s/%s/%s" % (m, w, names, change, start)
    for m in MODELS:                                  # only some items are recorded
        for req in range(6):
            yield "%s/req%d" % (m, req)


def dates(start, n):
    t = datetime.date.fromisoformat(start)
    return [(t + datetime.timedelta(days=k)).isoformat() for k in range(n)]


def mean(v, a, axis):
    w = np.where(np.isnan(v) | np.isnan(a), 0.0, a)
    with np.errstate(all="ignore"):
        return np.nansum(np.where(np.isnan(v), 0.0, v) * w, axis=axis) / w.sum(axis=axis)


def run(case, x):
    cls, o, names, types = parse(case)
    parts = case.split("/")
    d = x.dir()
    if parts[2].startswith("req"):
        return selected(x, d, cls, o, names, types, int(parts[2][3:]))
    word, ren, change, start = WORDS[parts[2]], NAMES[parts[3]], parts[4] == "1", parts[5]
    if ren:
        # (a cover can only change in favour of the one named "open")
        names = [ren.get(n, n) for n in names]
        if len(set(names)) < len(names):
            return
    if change:
        names[types.index("open")] = "open"
    hu, rows = catchment(d, names, types)
    m = cls(land_cover_names=list(names), land_cover_types=list(types), record_all=True, **o)
    ps = fill(m.generate_parameters())
    f, end = weather(d, hu, word, needed(o), start=start)
    m.setup(hu, d, start, end)
    if change:
        a = actions.ActionLandCoverChange()
        g = names[types.index("glacier")]
        with open(d + "/change.csv", "w") as out:
            t = dates(start, len(word))
            out.write("id,%s,%s\n" % (t[1], t[2]))
            for r in rows:
                if r[5][g] > 0:
                    out.write("%d,%f,%f\n" % (r[0], r[5][g] * 0.5, 0.0 if r[0] % 2 else r[5][g] * 0.25))
        a.load_from_csv(d + "/change.csv", hu, g, "m2", match_with="id")
        m.add_action(a)
    m.run(ps, f)
    path = m.dump_outputs()
    x.same(path, d + "/results.nc", "path", "path of the result file")
    with Results(path) as r:
        compare(x, m, r, names, types, rows, start, word)
    os.makedirs(d + "/other")
    r = m.get_results(d + "/other")
    x.check(os.path.isfile(d + "/other/results.nc"), "path", "no file in the given folder")
    compare(x, m, r, names, types, rows, start, word, brief=True)
    r.close()
    x.check(refused(lambda: Results(d + "/nothing.nc"), OSError) is not None, "missing", "a missing file is read")


def printed(f):
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        f()
    return b.getvalue().splitlines()


def compare(x, m, r, names, types, rows, start, word, brief=False):
    n, days = len(word), dates(start, len(word))
    ids = [int(i) for i in m.get_recorded_hydro_unit_ids()]
    by = {row[0]: row for row in rows}
    x.same([int(i) for i in r.hydro_units_ids], ids, "ids", "unit ids")
    labels = m.get_recorded_labels()
    x.same(printed(r.list_hydro_units_components), ["Hydro units components:"] + ["- " + k for k in labels], "labels", "listed components")
    sub = printed(r.list_sub_basin_components)
    x.check(sub[0] == "Sub basins components:" and "- outlet" in sub, "labels", "listed aggregated components %s", sub)
    q = r.results["sub_basin_values"].to_numpy()[sub.index("- outlet") - 1]
    x.check(np.array_equal(q, m.get_outlet_discharge()), "outlet", "outlet discharge in the file")
    # structures: units with the same exclusive cover (a lake) share one, others do not
    sid = [int(i) for i in r.get_hydro_units_structure_ids()]
    lake = [max((by[i][5][c] > 0 for c, t in zip(names, types) if t == "lake"), default=False) for i in ids]
    for a, b in itertools.combinations(range(len(ids)), 2):
        if lake[a] != lake[b]:
            x.check(sid[a] != sid[b], "structure", "units %d and %d have structure %d", ids[a], ids[b], sid[a])
    # areas
    area = np.array([by[i][1] for i in ids])
    areas, values = {}, {}
    x.close(m.get_recorded_hydro_unit_areas(), area, 1e-6, "area", "unit areas")
    for c in names:
        v = r.get_land_cover_areas(c)
        x.check(v.shape == (len(ids), n), "shape", "areas of %s: shape %s", c, v.shape)
        fr = np.array(m.get_recorded_hydro_unit_fractions(c))
        x.check(np.allclose(v, fr * area[:, None], rtol=1e-12, atol=1e-9, equal_nan=True), "cover", "areas of %s", c)
        for k, i in enumerate(ids):
            if by[i][5][c] > 0 or not np.isnan(v[k]).all():
                x.close(v[k][0], by[i][5][c], 1e-3, "cover", "area of %s in unit %d" % (c, i))
        areas[c] = v
    x.check(refused(lambda: r.get_land_cover_areas("nothing"), AttributeError, IndexError) is not None, "unknown", "areas of an unknown cover")
    if len(names) == 1:
        x.check(refused(lambda: r.get_land_cover_areas(names[0][1:]), AttributeError, IndexError) is not None, "unknown", "a part of a name is a cover")
    for k in labels:
        v = np.array(m.get_recorded_hydro_unit_values(k))
        w = r.get_hydro_units_values(k)
        x.check(w.shape == (len(ids), n) and np.array_equal(v, w, equal_nan=True), "values", "values of %s differ", k)
        values[k] = v
    # every abbreviation of every label
    for k in labels if not brief else ():
        for j in range(1, len(k)):
            same = [q for q in labels if q.endswith(k[j:])]
            if k[j:] in labels:
                same = [k[j:]]
            e = refused(lambda: x.check(np.array_equal(r.get_hydro_units_values(k[j:]), values[same[0]], equal_nan=True),
                                        "suffix", "%s gives other values than %s", k[j:], same[0]))
            x.check((e is None) == (len(same) == 1), "suffix", "%s: %s", k[j:], e or "accepted although ambiguous")
    x.check(refused(lambda: r.get_hydro_units_values("nothing")) is not None, "unknown", "values of an unknown component")
    snow = [c + "_snowpack:snow_content" for c in names]
    A = np.array([areas[c] for c in names])
    S = np.array([values[k] if k in values else np.zeros_like(areas[c]) for c, k in zip(names, snow)])
    # every period
    spans = [(None, None, slice(None))] + [(days[a], None, a) for a in range(n)] + \
            [(days[a], days[b], slice(a, b + 1)) for a in range(n) for b in range(a, n)]
    far = dates(start, n + 2)[-1]
    spans += [("1990-01-01", far, slice(None)), (days[n // 2], far, slice(n // 2, None)), ("1990-01-01", days[0], slice(0, 1))]
    if brief:
        spans = spans[:2]
    some = labels[::max(1, len(labels) // 6)] + [k for k in snow if k in values]
    for a, b, sl in spans:
        x.step()
        if a and b:
            t = r.get_time_array(a, b)
            x.same([str(v)[:19] for v in t], [y + "T00:00:00" for y in days[sl]], "time", "dates of %s..%s" % (a, b))
        for k in some:
            v = r.get_hydro_units_values(k, a, b)
            x.check(np.array_equal(v, values[k][:, sl], equal_nan=True), "slice", "values of %s for %s..%s", k, a, b)
        for c in names:
            v = r.get_land_cover_areas(c, a, b)
            x.check(np.array_equal(v, areas[c][:, sl], equal_nan=True), "slice", "areas of %s for %s..%s", c, a, b)
            for k in some:
                v = r.get_mean_hydro_units_values(c, k, a, b)
                w = mean(values[k][:, sl], areas[c][:, sl], 0)
                x.check(np.shape(v) == np.shape(w) and np.allclose(v, w, rtol=1e-9, atol=1e-12, equal_nan=True), "mean",
                        "mean of %s over %s for %s..%s: %s, should be %s", k, c, a, b, v, w)
        v, w = r.get_total_swe(a, b), mean(S[:, :, sl], A[:, :, sl], 0)
        x.check(np.shape(v) == np.shape(w) and np.allclose(v, w, rtol=1e-9, atol=1e-12, equal_nan=True), "swe",
                "snow of the units for %s..%s: %s, should be %s", a, b, v, w)
        v, w = r.get_mean_swe(a, b), mean(S[:, :, sl], A[:, :, sl], (0, 1))
        x.check(np.shape(v) == np.shape(w) and np.allclose(v, w, rtol=1e-9, atol=1e-12, equal_nan=True), "swe",
                "mean snow for %s..%s: %s, should be %s", a, b, v, w)
    x.check(refused(lambda: r.get_hydro_units_values(labels[0], "1990-01-01")) is not None, "slice", "a date outside the run")
    x.state(len(labels), n, tuple(sid), round(float(np.nansum(S)), 2))


def selected(x, d, cls, o, names, types, req):
    """Recording some items only gives the same series as recording everything."""
    hu, rows = catchment(d, names, types)
    word, start = WORDS["7"], "2000-02-27"
    f, end = weather(d, hu, word, needed(o), start=start)

    def go(sub, all, request=None):
        m = cls(land_cover_names=list(names), land_cover_types=list(types), record_all=all, **o)
        ps = fill(m.generate_parameters())
        if request:
            m.add_recordings(request)
        os.makedirs(d + sub)
        m.setup(hu, d + sub, start, end)
        m.run(ps, f)
        return m, m.get_results()
    m0, r0 = go("/all", True)
    stores = [k.rsplit(":", 1) for k in m0.get_recorded_labels() if k.count(":") == 1 and k.endswith("_content")]
    flows = [k.split(":") for k in m0.get_recorded_labels() if k.count(":") == 2 and k.endswith(":output")]
    q = RecordingRequest(
        brick_states=[(b, i) for b, i in stores][:1] if req in (0, 2) else [(b, i) for b, i in stores] if req in (3, 5) else [],
        process_outputs=[tuple(f) for f in flows][:1] if req in (1, 2) else [tuple(f) for f in flows] if req in (3, 4) else [],
        fractions=req in (2, 3, 5))
    m, r = go("/some", False, q)
    want = q.value_labels()
    x.check(set(m.get_recorded_labels()) >= set(want), "request", "not recorded: %s", sorted(set(want) - set(m.get_recorded_labels())))
    x.check(np.array_equal(m.get_outlet_discharge(), m0.get_outlet_discharge()), "request", "the discharge depends on what is recorded")
    x.same(printed(r.list_hydro_units_components), ["Hydro units components:"] + ["- " + k for k in m.get_recorded_labels()],
           "labels", "listed components")
    for k in want:
        x.check(np.array_equal(r0.get_hydro_units_values(k), r.get_hydro_units_values(k), equal_nan=True), "request", "%s is %s, should be %s", k, r.get_hydro_units_values(k), r0.get_hydro_units_values(k))
        x.step()
    if q.fractions:
        for c in names:
            x.check(np.array_equal(r0.get_land_cover_areas(c), r.get_land_cover_areas(c), equal_nan=True), "request", "areas of %s differ", c)
    else:
        x.check(refused(lambda: r.get_land_cover_areas(names[0]), AttributeError, TypeError, IndexError) is not None, "request",
                "areas although not recorded")
    e = refused(lambda: m.add_recordings(q))
    x.check(e is not None, "request", "recordings are added after the set-up")
    x.state(len(want), req)
