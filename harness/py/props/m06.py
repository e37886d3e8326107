"""M06: periods, spin-up, observations and scores refer to the dates they name."""
import datetime
import math
import warnings

import pandas as pd

from props.common import *
from hydrobricks.evaluation import DischargeObservations, evaluate
from hydrobricks.evaluation.metrics import reference_value, to_skill
from hydrobricks.periods import Period, Periods, evaluate_periods, spinup_to_days
from hydrobricks.time_series import TimeSeries1D

D = datetime.date.fromisoformat
DATES = ["1999-02-28", "1999-12-31", "2000-01-01", "2000-02-28", "2000-02-29", "2000-03-01", "2000-12-31", "2001-03-01", "2004-02-29"]
FORMS = {"s": str, "d": lambda t: datetime.datetime.fromisoformat(t), "t": pd.Timestamp}
METRICS = ("nse", "kge_2012", "kge_2009", "rmse", "mae", "mse", "me")
ERRORS = ("rmse", "mae", "mse", "me")


def cases(tier):
    full = tier == "thorough"
    for a, b in itertools.product(range(len(DATES)), repeat=2):
        for f in FORMS:
            yield "period/%d.%d.%s" % (a, b, f)
    for s in range(len(DATES)):
        yield "spinup/%d" % s
    pairs = ["-"] + ["%d%d" % (a, b) for a, b in itertools.combinations_with_replacement(range(4), 2)]
    for c, v, s in itertools.product(pairs, pairs, pairs):
        yield "periods/%s.%s.%s" % (c, v, s)
    # observations: the file holds days 0..n-1 (some missing), the bounds lie around
    for n, hole in ((6, "-"), (6, "0"), (6, "3"), (6, "5"), (6, "123")):
        for a, b in itertools.product(range(-1, 8), repeat=2):
            for o in ("-", "a", "b", "ab"):
                yield "obs/%d.%s.%d.%d.%s" % (n, hole, a, b, o)
    for a, b in itertools.product(("-", "-1", "0", "2", "5", "7"), repeat=2):
        yield "series/%s.%s" % (a, b)
    for m in range(3):
        for w in range(0, 9):
            yield "eval/%d.%d" % (m, w)
    for m in ("socont/1.l.dd.-.-.-.1.og", "hbv96/dd.r.1.l.-.-.0.0.1.ol", "gr4j/1.-.-.-.-.o"):
        for sp in ("0", "1", "2", "3", "5", "9", "1d", "4d", "9d", "1y"):
            yield "run/%s/%s" % (m, sp)
    for y, c in itertools.product((2, 3) if not full else (1, 2, 3, 4), range(8)):
        yield "ref/%d.%d" % (y, c)


def run(case, x):
    k, r = case.split("/", 1)
    globals()["c_" + k](r, x)


def days(a, b):
    return [a + datetime.timedelta(days=k) for k in range((b - a).days + 1)]


def c_period(r, x):
    a, b, f = r.split(".")
    a, b = DATES[int(a)], DATES[int(b)]
    conv = FORMS[f]
    if a > b:
        x.check(refused(lambda: Period(conv(a), conv(b))) is not None, "order", "%s..%s is accepted", a, b)
        x.check(refused(lambda: Period.coerce((conv(a), conv(b)))) is not None, "order", "%s..%s is accepted", a, b)
        return
    p = Period(conv(a), conv(b), "p")
    n = (D(b) - D(a)).days + 1
    for q in (p, Period.coerce((conv(a), conv(b))), Period.coerce([conv(a), conv(b)], "q"), Period.coerce(p), Period.coerce(p, "q"),
              Period.coerce(Period(conv(a), conv(b)), "q")):
        x.same(q.bounds, (a, b), "bounds", "bounds")
        x.same(q.n_days, n, "length", "number of days of %s..%s" % (a, b))
        x.check(q == p and hash(q) == hash(p), "equal", "%r and %r", p, q)
    x.same((Period.coerce(p, "q").name, Period.coerce((a, b), "q").name, Period.coerce(Period(a, b), "q").name), ("p", "q", "q"), "name", "name")
    got = [str(t)[:10] for t in p.date_range()]
    x.same(got, [str(t) for t in days(D(a), D(b))], "range", "dates")
    for s, e in itertools.combinations_with_replacement(DATES[:8], 2):
        t = pd.date_range(s, e, freq="D")
        want = [D(a) <= y <= D(b) for y in days(D(s), D(e))]
        x.same([bool(v) for v in p.mask(t)], want, "mask", "%s..%s within %s..%s" % (s, e, a, b))
        x.same([bool(v) for v in p.mask(pd.Series(t))], want, "mask", "%s..%s within %s..%s" % (s, e, a, b))
        x.check((Period(s, e) == p) == ((s, e) == (a, b)), "equal", "%s..%s and %s..%s", s, e, a, b)
    for bad in ((a,), (a, b, b), a, None, 5):
        x.check(refused(lambda: Period.coerce(bad)) is not None, "refuse", "%r is a period", bad)


def later(t, years):
    y = t.year + years
    leap = y % 4 == 0 and (y % 100 or y % 400 == 0)
    return datetime.date(y, t.month, min(t.day, 28) if t.month == 2 and not leap else t.day)


def c_spinup(r, x):
    t = D(DATES[int(r)])
    for n in list(range(0, 12)) + [100, 101]:
        for conv in FORMS.values():
            for s, w in ((n, n), (str(n), n), ("%dd" % n, n), (" %dD " % n, n), ("%dy" % n, (later(t, n) - t).days),
                         (" %dY" % n, (later(t, n) - t).days)):
                x.same(spinup_to_days(s, conv(str(t))), w, "spinup", "days of %r from %s" % (s, t))
    for bad in (True, False, -1, "-1", "-1d", "-1y", "", "y", "d", "1.5y", "4m", "abc", None, 1.5, [4]):
        x.check(refused(lambda: spinup_to_days(bad, str(t))) is not None, "refuse", "spin-up %r is accepted", bad)


GRID = ["2000-01-01", "2000-06-30", "2000-07-01", "2001-12-31"]


def c_periods(r, x):
    c, v, s = [None if w == "-" else (GRID[int(w[0])], GRID[int(w[1])]) for w in r.split(".")]
    for form in (lambda w: w, lambda w: w and Period(*w), lambda w: w and list(w)):
        def make(spinup="4y"):
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                p = Periods(form(c), form(v), form(s), spinup)
            return p, [str(q.message) for q in ws]
        both = [p for p in (c, v) if p]
        span = s or (both and (min(p[0] for p in both), max(p[1] for p in both)))
        bad = not span or any(p[0] < span[0] or p[1] > span[1] for p in both)
        if bad:
            x.check(refused(make) is not None, "refuse", "%s is accepted", r)
            continue
        p, ws = make()
        x.same(p.full_span.bounds, tuple(span), "span", "span of %s" % r)
        want = {n: tuple(q) for n, q in (("calibration", c), ("validation", v), ("simulation", span)) if q}
        x.same({n: q.bounds for n, q in p.defined_periods().items()}, want, "defined", "defined periods")
        overlap = bool(c and v and c[0] <= v[1] and v[0] <= c[1])
        x.same(bool(ws), overlap, "overlap", "warning for %s" % r)
        for sp in (0, 1, 90, 181, 182, 183, 10000, "1y", "2y", "30d"):
            p, _ = make(sp)
            for n, q in p.defined_periods().items():
                a, b = map(D, want[n])
                w = min(sp if isinstance(sp, int) else int(sp[:-1]) if sp[-1] == "d" else (later(a, int(sp[:-1])) - a).days, (b - a).days + 1)
                x.same(p.spinup_days_for(q), w, "spinup", "spin-up of the %s period" % n)
        for sp in (-1, "x", True):
            x.check(refused(lambda: make(sp)) is not None, "refuse", "spin-up %r", sp)


def write_obs(path, t0, n, holes, cols=1):
    rows = []
    with open(path, "w") as f:
        f.write("when,q,r\n")
        for k in range(n):
            if k in holes:
                continue
            t = t0 + datetime.timedelta(days=k)
            f.write("%02d.%02d.%04d,%g,%g\n" % (t.day, t.month, t.year, 1.5 + 3 * k % 7, -k))
            rows.append((str(t), 1.5 + 3 * k % 7, -float(k)))
    return rows


def c_obs(r, x):
    n, hole, a, b, over = r.split(".")
    t0, d = D("2000-02-26"), x.dir()
    rows = write_obs(d + "/q.csv", t0, int(n), [int(h) for h in hole] if hole != "-" else [])
    at = lambda k: str(t0 + datetime.timedelta(days=k))
    a, b = at(int(a)), at(int(b))
    o = {"a": "2000-02-28", "b": "2000-02-29"}
    for form in FORMS.values():
        mk = [lambda: DischargeObservations(form(a), form(b)), lambda: DischargeObservations(form(a), end_date=form(b))]
        if a <= b:
            mk += [lambda: DischargeObservations(Period(a, b)), lambda: DischargeObservations(Periods(calibration=(a, b)))]
        for make in mk:
            obs = make()
            kw = {}
            lo, hi = a, b
            if "a" in over:
                lo = o["a"]
                kw["start_date"] = form(lo)
            if "b" in over:
                hi = o["b"]
                kw["end_date"] = form(hi)
            obs.load_from_csv(d + "/q.csv", "when", "%d.%m.%Y", {"discharge": "q"}, **kw)
            want = [q for q in rows if lo <= q[0] <= hi]
            x.same([str(t)[:10] for t in obs.time], [q[0] for q in want], "obs", "dates of the observations within %s..%s" % (lo, hi))
            x.same([float(v) for v in obs.data[0]], [q[1] for q in want], "obs", "observations within %s..%s" % (lo, hi))
            x.step()
    x.check(refused(lambda: DischargeObservations(a)) is not None, "refuse", "observations without end date")


def c_series(r, x):
    t0, d = D("2000-02-26"), x.dir()
    rows = write_obs(d + "/q.csv", t0, 6, [])
    a, b = [None if k == "-" else t0 + datetime.timedelta(days=int(k)) for k in r.split(".")]
    for conv in (lambda t: t and pd.Timestamp(str(t)), lambda t: t and datetime.datetime(t.year, t.month, t.day), lambda t: t and str(t)):
        s = TimeSeries1D()
        s.load_from_csv(d + "/q.csv", "when", "%d.%m.%Y", {"x": "q", "y": "r"}, start_date=conv(a), end_date=conv(b))
        want = [q for q in rows if (a is None or q[0] >= str(a)) and (b is None or q[0] <= str(b))]
        x.same([str(t)[:10] for t in s.time], [q[0] for q in want], "series", "dates from %s to %s" % (a, b))
        x.same([[float(v) for v in s.data[s.data_name.index(n)]] for n in "xy"], [[q[1] for q in want], [q[2] for q in want]], "series", "values")
    x.check(refused(lambda: TimeSeries1D().load_from_csv(d + "/no.csv", "when", "%d.%m.%Y", {"x": "q"}), OSError) is not None, "refuse", "no file")
    x.check(refused(lambda: TimeSeries1D().load_from_csv(d + "/q.csv", "when", "%d.%m.%Y", {"x": "nothing"})) is not None, "refuse", "no column")


# ------------------------------------------------------------------------------- scores
def score(metric, s, o):
    """The published definitions, in plain Python."""
    p = [(float(a), float(b)) for a, b in zip(s, o) if not (math.isnan(a) or math.isnan(b))]
    n = len(p)
    if not n:
        return math.nan
    e = [a - b for a, b in p]
    if metric == "me":
        return sum(e) / n
    if metric == "mae":
        return sum(abs(v) for v in e) / n
    if metric in ("mse", "rmse"):
        m = sum(v * v for v in e) / n
        return m if metric == "mse" else math.sqrt(m)
    ms, mo = sum(a for a, _ in p) / n, sum(b for _, b in p) / n
    vs, vo = sum((a - ms) ** 2 for a, _ in p) / n, sum((b - mo) ** 2 for _, b in p) / n
    if vo == 0:
        return math.nan
    if metric == "nse":
        return 1 - sum(v * v for v in e) / (vo * n)
    if vs == 0 or mo == 0 or ms == 0:
        return math.nan
    r = sum((a - ms) * (b - mo) for a, b in p) / n / math.sqrt(vs * vo)
    k = math.sqrt(vs / vo) / (ms / mo if metric == "kge_2012" else 1)
    return 1 - math.sqrt((r - 1) ** 2 + (k - 1) ** 2 + (ms / mo - 1) ** 2)


def same_score(x, got, want, what, *args):
    if math.isnan(want):
        x.ok()
        return
    x.check(abs(got - want) <= 1e-8 * max(1, abs(want)), "score", what + ": %.12g, should be %.12g", *args, got, want)


def model(d, sub, case, word, start="2000-02-25", spinup=0, period=None, f=None):
    cls, o, names, types = parse(case)
    hu, rows = catchment(d, names, types)
    m = cls(land_cover_names=list(names), land_cover_types=list(types), **o)
    ps = fill(m.generate_parameters())
    f, end = weather(d, hu, word, needed(o), start=start, name="w" + sub)
    os.makedirs(d + "/" + sub)
    if period:
        m.setup(hu, d + "/" + sub, period=period, spinup=spinup)
    else:
        m.setup(hu, d + "/" + sub, start, end, spinup=spinup)
    m.run(ps, f)
    return m


def c_eval(r, x):
    k, w = map(int, r.split("."))
    d = x.dir()
    word = (5, 3, 2, 4, 1, 3, 5, 2, 4)
    n, t0 = len(word), D("2000-02-25")
    m = model(d, "m", ("socont/1.l.dd.-.-.-.1.o", "hbv96/dd.r.1.l.-.-.0.0.1.o", "gr4j/1.-.-.-.-.o")[k], word)
    q = np.array(m.get_outlet_discharge())
    x.same([str(t)[:10] for t in m.get_recorded_time()], [str(t0 + datetime.timedelta(days=j)) for j in range(n)], "time", "dates of the run")
    # observations over a longer span than the run
    with open(d + "/obs.csv", "w") as f:
        f.write("date,q\n")
        for j in range(-4, n + 3):
            f.write("%s,%g\n" % (t0 + datetime.timedelta(days=j), 2.0 + (j * j * 7 + 3 * j) % 11))
    at = lambda j: str(t0 + datetime.timedelta(days=j))
    val = lambda j: 2.0 + (j * j * 7 + 3 * j) % 11

    def load(a, b):
        o = DischargeObservations(at(a), at(b))
        o.load_from_csv(d + "/obs.csv", "date", "%Y-%m-%d", {"discharge": "q"})
        return o
    full, exact = load(-4, n + 2), load(0, n - 1)
    arr = np.array([val(j) for j in range(n)])
    for metric in METRICS:
        for obs in (exact, arr):
            same_score(x, m.eval(metric, obs, warmup=w), score(metric, q[w:], arr[w:]) if w < n else math.nan, "%s after %d days", metric, w) \
                if w < n - 1 else None
            for a, b in itertools.combinations_with_replacement(range(n), 2):
                if b - a < 1:
                    continue
                x.step()
                want = score(metric, q[a:b + 1], arr[a:b + 1])
                for p in ((at(a), at(b)), Period(at(a), at(b), "p")) if metric == "nse" else ((at(a), at(b)),):
                    same_score(x, m.eval(metric, obs, period=p), want, "%s of %s..%s", metric, at(a), at(b))
                    same_score(x, m.eval(metric, full, period=p), want, "%s of %s..%s (observations of a longer span)", metric, at(a), at(b))
        for s, o in ((q, arr), (arr, q), (arr, arr)):
            same_score(x, evaluate(s, o, metric), score(metric, s, o), "%s", metric)
        bench = score(metric, [arr.mean()] * n, arr)
        v = 0.37
        if metric not in ERRORS:
            x.same(to_skill(v, metric, arr), v, "skill", "skill of %s" % metric)
        else:
            same_score(x, reference_value(arr, metric), bench, "reference of %s", metric)
            same_score(x, to_skill(v, metric, arr), 1 - v / bench if abs(bench) > 1e-9 else -v, "skill of %s", metric)
            if metric != "me":
                x.check(to_skill(0.0, metric, arr) == 1 and abs(to_skill(bench, metric, arr)) < 1e-9, "skill", "skill of the benchmark")
    x.check(refused(lambda: m.eval("nse", arr, warmup=1, period=(at(0), at(2)))) is not None, "refuse", "a period and a warm-up")
    x.check(refused(lambda: m.eval("nse", arr[1:], period=(at(0), at(2)))) is not None, "refuse", "observations of another length")
    for a, b in ((-1, 2), (n - 2, n), (-3, -1), (n, n + 1)):
        x.check(refused(lambda: m.eval("nse", full, period=(at(a), at(b)))) is not None, "refuse", "%s..%s is outside the run", at(a), at(b))
    short = load(2, n - 2)
    for a, b in ((1, 4), (3, n - 1), (0, n - 1)):
        x.check(refused(lambda: m.eval("nse", short, period=(at(a), at(b)))) is not None, "refuse", "no observations on %s..%s", at(a), at(b))
    # split-sample table
    for cut in range(2, n - 1):
        p = Periods(calibration=(at(0), at(cut - 1)), validation=(at(cut), at(n - 1)))
        for obs in (full, exact, arr):
            df = evaluate_periods(m, obs, p, ("nse", "kge_2012", "rmse"))
            for name, sl in (("calibration", slice(0, cut)), ("validation", slice(cut, n)), ("simulation", slice(0, n))):
                for metric in ("nse", "kge_2012", "rmse"):
                    same_score(x, df.loc[name, metric], score(metric, q[sl], arr[sl]), "%s of the %s period", metric, name)
    for p in (Periods(calibration=(at(-1), at(3))), Periods(calibration=(at(0), at(3)), simulation=(at(0), at(n)))):
        x.check(refused(lambda: evaluate_periods(m, full, p)) is not None, "refuse", "a period outside the run")
    x.check(refused(lambda: evaluate_periods(m, short, Periods(calibration=(at(0), at(3))))) is not None, "refuse", "observations of another span")
    x.check(refused(lambda: evaluate_periods(m, arr[1:], Periods(calibration=(at(0), at(3))))) is not None, "refuse", "observations of another length")


def c_run(r, x):
    """A run with spin-up is the run over the spin-up days followed by the period, without the first part."""
    case, sp = r.rsplit("/", 1)
    d = x.dir()
    word = (5, 3, 2, 4, 1, 3, 5)
    n, start = len(word), "2000-02-26"
    end = str(D(start) + datetime.timedelta(days=n - 1))
    spin = int(sp) if sp.isdigit() else sp
    k = min(spinup_to_days(spin, start), n)
    ref = np.array(model(d, "ref", case, word[:k] + word).get_outlet_discharge())[k:]
    runs = [model(d, "a", case, word, start=start, spinup=spin), model(d, "b", case, word, start=start, spinup=spin, period=(start, end)),
            model(d, "c", case, word, start=start, spinup=spin, period=Period(start, end)),
            model(d, "d", case, word, start=start, spinup=spin, period=Periods(calibration=(start, end)).calibration)]
    for m in runs:
        q = np.array(m.get_outlet_discharge())
        x.check(len(q) == n and np.allclose(q, ref, rtol=1e-9, atol=1e-12), "spinup", "discharge with a spin-up of %s: %s, should be %s", sp, q, ref)
        x.same([str(m.get_recorded_time()[0])[:10], str(m.get_recorded_time()[-1])[:10]], [start, end], "time", "dates of the run")
        x.step(n)
    m = runs[0]
    cls, o, names, types = parse(case)
    for kw in (dict(start_date=start, end_date=end, period=(start, end)), dict(start_date=start, period=(start, end)), {}, dict(end_date=end)):
        m2 = cls(land_cover_names=list(names), land_cover_types=list(types), **o)
        x.check(refused(lambda: m2.setup(m.spatial_structure, d, **kw)) is not None, "refuse", "set-up with %s", sorted(kw))
    x.check(refused(lambda: m.setup(m.spatial_structure, d, start, end)) is not None, "refuse", "a second set-up")
    # the folder of the results is created, however it is given
    import pathlib
    for name, conv in (("p1", str), ("p2", pathlib.Path)):
        m2 = cls(land_cover_names=list(names), land_cover_types=list(types), **o)
        fill(m2.generate_parameters())
        m2.setup(m.spatial_structure, conv(d + "/" + name), start, end)
        x.check(os.path.isdir(d + "/" + name), "folder", "the folder %s is not created", name)
    x.state(case, k)


def c_ref(r, x):
    """Bootstrap reference of a metric, from every combination of years."""
    ny, c = map(int, r.split("."))
    d = x.dir()
    first = (1999, 2003)[c % 2]
    a, b = D("%d-01-01" % first), D("%d-12-31" % (first + ny - 1))
    ds = days(a, b)
    v = [2 + (7 * k * k + 3 * k) % 23 + t.year % 5 for k, t in enumerate(ds)]
    with open(d + "/q.csv", "w") as f:
        f.write("date,q\n")
        for t, q in zip(ds, v):
            f.write("%s,%g\n" % (t, q))
    o = DischargeObservations(str(a), str(b))
    o.load_from_csv(d + "/q.csv", "date", "%Y-%m-%d", {"discharge": "q"})
    metric = ("nse", "kge_2012", "rmse", "mae")[c // 2]
    data = {y: [q for t, q in zip(ds, v) if t.year == y and (t.month, t.day) != (2, 29)] for y in range(first, first + ny)}
    years = sorted(data)
    if ny == 1:
        x.check(refused(lambda: o.compute_reference_metric(metric, all_combinations=True)) is not None, "refuse", "one year only")
    spans = [(None, None)] + [("%d-01-01" % p, "%d-12-31" % q) for p in years for q in years if p <= q]
    spans += [("%d-01-01" % p, None) for p in years] + [(None, "%d-12-31" % p) for p in years]
    for lo, hi in spans:
        comp = [y for y in years if (not lo or y >= int(lo[:4])) and (not hi or y <= int(hi[:4]))]
        obs = sum((data[y] for y in comp), [])
        mean = [sum(data[y][k] for y in years) / ny for k in range(365)]
        same_score(x, o.compute_reference_metric(metric, lo, hi, mean_discharge=True), score(metric, mean * len(comp), obs), "mean discharge %s %s..%s", metric, lo, hi)
        for excl in (False, True):
            if ny == 1:
                continue
            combos = [p for p in itertools.product(years, repeat=len(comp)) if not excl or all(i != j for i, j in zip(p, comp))]
            if len(combos) > 30:
                continue
            want = [score(metric, sum((data[y] for y in p), []), obs) for p in combos]
            got = o.compute_reference_metric(metric, lo, hi, with_exclusion=excl, all_combinations=True)
            same_score(x, got, sum(want) / len(want), "%s of all the combinations %s..%s (exclusion %s)", metric, lo, hi, excl)
            x.step(len(combos))
            got = o.compute_reference_metric(metric, lo, hi, with_exclusion=excl, n_evals=5)
            x.check(min(want) - 1e-9 <= got <= max(want) + 1e-9, "score", "%s of a sample %g is outside those of the combinations", metric, got)
