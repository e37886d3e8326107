"""M07: a calibration scores every parameter set by what the model does with it, whatever came before."""
import copy
import datetime
import math

import pandas as pd
import spotpy

from props.common import *
from props.m06 import score, same_score, ERRORS
from hydrobricks import trainer
from hydrobricks.evaluation import DischargeObservations
from hydrobricks.evaluation.base import AuxiliaryObservation
from hydrobricks.periods import Periods

D = datetime.date.fromisoformat
START = "2000-02-25"
WORD = (5, 3, 2, 4, 1, 3, 5, 2, 4)
N = len(WORD)
WORST = 1e12
lk, ilk = (lambda v: math.log(v / 24)), (lambda t: 24 * math.exp(t))
# model -> (case, {alias: to optimizer space}, vectors of real values, letters of the valid ones)
MODELS = {
    "s": ("socont/1.l.dd.-.-.-.1.og", {"a_snow": None, "k_slow": lk, "k_quick": None},
          {"a": (3, .05, .3), "b": (5, .02, .6), "c": (2.5, .2, .9), "X": (19, .05, .3), "Y": (3, .5, .3), "Z": (3, .05, 1.5), "W": (-1, .05, .3)}),
    "g": ("gr4j/1.-.-.-.-.o", {"X1": math.log, "X2": math.asinh, "X3": math.log, "X4": lambda v: math.log(v - 0.5)},
          {"a": (120, 0, 50, 1.7), "b": (300, -2, 20, 1.2), "c": (50, 1, 90, 2.4), "Z": (120, 0, 50, 30), "Y": (9e9, 0, 50, 1.7)}),
    # response_factor below the range's lower bound etc. is a matter of M03; here one of each kind
    "h": ("hbv96/dd.r.1.l.-.-.0.0.1.o", {"a_snow": None, "k_uz": None, "k_lz": None},
          {"a": (3, .3, .05), "b": (5, .5, .02), "c": (2.5, .2, .1), "X": (3, .02, .3), "Z": (3, .3, -0.5)}),
    # a parameter of the forcing: the data are recomputed for every set
    "f": ("gr4j/1.-.-.-.-.o", {"X1": math.log, "pcf": None}, {"a": (120, 1.0), "b": (120, 1.6), "c": (300, 0.5), "Z": (120, 9.0)}),
}
SETUPS = ("eager", "factory", "copies", "onefactory", "prebuilt", "prior")
OBJS = ("nse", "kge_2012", "rmse", "mae", "mse", "none", "call")
BACK = {"s": {"k_slow": ilk}, "g": {"X1": math.exp, "X2": math.sinh, "X3": math.exp, "X4": lambda t: math.exp(t) + 0.5}, "f": {"X1": math.exp}, "h": {}}


def valid(l):
    return l.islower()


def cases(tier):
    full = tier == "thorough"
    for m in MODELS:
        letters = "".join(MODELS[m][2])
        for s in SETUPS:
            for algo in ("mc", "sceua"):
                for n in (1, 2, 3) if full or s == "eager" and algo == "mc" else (1, 2):
                    for w in itertools.product(letters if n < 3 or full else "abX" if "X" in letters else "abZ", repeat=n):
                        yield "cal/%s.%s.%s.%s" % (m, s, algo, "".join(w))
    for m, w in itertools.product("sg", range(0, N - 1)):
        yield "obj/%s.%d" % (m, w)
    for a, b, hole, w in itertools.product((-3, 0, 1), (N - 2, N - 1, N + 2), ("-", "0", "4", "8"), (0, 3, N - 1, N, N + 1)):
        yield "align/%d.%d.%s.%d" % (a, b, hole, w)
    for n in (1, 2):
        for w in itertools.product("abcdefghijk", repeat=n):
            yield "aux/" + "".join(w)
            if n == 1:
                yield "aux/%s.gaps" % w
    for m in "sgh":
        letters = "".join(MODELS[m][2])
        for n in (1, 2, 3, 4) if full else (1, 2, 3):
            for w in itertools.product(letters, repeat=n):
                yield "par/%s.%s" % (m, "".join(w))
        yield "par/%s.never" % m
    for k in range(len(CONF)):
        yield "conf/%d" % k
    for k in itertools.product("ab", "ab", "01"):
        yield "ens/" + "".join(k)
    for w in itertools.product("abcBE", repeat=2 if not full else 3):
        yield "bad/" + "".join(w)
    for k in itertools.product(range(3), range(2)):
        yield "per/%d.%d" % k
    for m in "sgf":
        letters = [l for l in MODELS[m][2] if l in "abcZ"]
        for what, n in itertools.product(("11", "10", "01", "00"), (1, 2, 3) if full else (1, 2)):
            for w in itertools.product(letters, repeat=n):
                yield "dump/%s.%s.%s" % (m, what, "".join(w))


def run(case, x):
    k, r = case.split("/", 1)
    globals()["c_" + k](r, x)


# ----------------------------------------------------------------------------------------------- building blocks
def observed(j):
    return 2.0 + (j * j * 7 + 3 * j) % 11


def day(j):
    return str(D(START) + datetime.timedelta(days=j))


class Maker:
    """Everything a calibration needs; calling it is the factory."""

    def __init__(self, d, m, four=False, obs=(0, N - 1), hole="-", word=WORD, gaps=()):
        self.d, self.m, self.four, self.obs, self.hole, self.word, self.n, self.gaps = d, m, four, obs, hole, word, 0, gaps

    def params(self):
        cls, o, names, types = parse(MODELS[self.m][0])
        ps = fill(cls(land_cover_names=list(names), land_cover_types=list(types), **o).generate_parameters())
        if self.m == "f":
            ps.add_data_parameter("pcf", 1.0, min_val=0.1, max_val=5.0)
        if self.m == "s":
            ps.set_values({"a_ice": 9})
        ps.allow_changing = list(MODELS[self.m][1])
        return ps

    def model(self, vec=None, setup=True, **kw):
        self.n += 1
        cls, o, names, types = parse(MODELS[self.m][0])
        sub = "%s/r%d" % (self.d, self.n)
        os.makedirs(sub)
        hu, rows = catchment(sub, names, types)
        m = cls(land_cover_names=list(names), land_cover_types=list(types), **o)
        f, end = weather(sub, hu, self.word, needed(o), start=START)
        if self.m == "f":
            f2 = hb.Forcing(hu)
            f2.load_station_data_from_csv(sub + "/w.csv", column_time="date", time_format="%Y-%m-%d", content={k: k for k in needed(o)})
            f2.correct_station_data(variable="precipitation", correction_factor="param:pcf")
            f2.spatialize_from_station_data(variable="precipitation", ref_elevation=1200, gradient=0.05)
            f2.spatialize_from_station_data(variable="temperature", method="additive_elevation_gradient", ref_elevation=1200, gradient=-0.6)
            f2.spatialize_from_station_data(variable="pet", method="constant")
            f = f2
        if kw:
            m.setup(hu, sub, **kw)
        else:
            m.setup(hu, sub, START, end)
        return m, f

    def discharge(self):
        a, b = self.obs
        path = self.d + "/obs.csv"
        with open(path, "w") as f:
            f.write("date,q\n")
            for j in range(a, b + 1):
                if str(j) not in self.hole:
                    f.write("%s,%g\n" % (day(j), observed(j)) if j not in self.gaps else "%s,\n" % day(j))
        o = DischargeObservations(day(-20), day(N + 20))
        o.load_from_csv(path, "date", "%Y-%m-%d", {"discharge": "q"})
        return o

    def __call__(self):
        m, f = self.model()
        return (m, self.params(), f, self.discharge()) if self.four else (m, f, self.discharge())


CACHE = {}


def reference(mk, vec):
    """The discharge of a fresh model with these real values (the forcing corrected by hand)."""
    key = (mk.m, vec, mk.word)
    if key in CACHE:
        return CACHE[key]
    case, names, _ = MODELS[mk.m]
    pcf = dict(zip(names, vec)).get("pcf")
    cls, o, covers, types = parse(case)
    mk.n += 1
    sub = "%s/r%d" % (mk.d, mk.n)
    os.makedirs(sub)
    hu, rows = catchment(sub, covers, types)
    m = cls(land_cover_names=list(covers), land_cover_types=list(types), **o)
    ps = fill(m.generate_parameters())
    if mk.m == "s":
        ps.set_values({"a_ice": 9})
    ps.set_values({k: v for k, v in zip(names, vec) if k != "pcf"})
    f, end = weather(sub, hu, mk.word, needed(o), start=START)
    if pcf is not None:
        f = hb.Forcing(hu)
        f.load_station_data_from_csv(sub + "/w.csv", column_time="date", time_format="%Y-%m-%d", content={k: k for k in needed(o)})
        f.correct_station_data(variable="precipitation", correction_factor=pcf)
        f.spatialize_from_station_data(variable="precipitation", ref_elevation=1200, gradient=0.05)
        f.spatialize_from_station_data(variable="temperature", method="additive_elevation_gradient", ref_elevation=1200, gradient=-0.6)
        f.spatialize_from_station_data(variable="pet", method="constant")
    m.setup(hu, sub, START, end)
    m.run(ps, f)
    CACHE[key] = np.array(m.get_outlet_discharge())
    return CACHE[key]


class Script:
    """Replaces the draws of the sampler by a script of vectors, the last one repeated."""

    def __init__(self, m, word):
        _, names, vecs = MODELS[m]
        self.names, self.k, self.seen, self.word, self.vecs = names, 0, {}, word, vecs

    def value(self, name, v):
        t = self.names[name]
        return v if t is None else t(v)

    def __call__(self, p):
        i = list(self.names).index(p.name)
        vec = self.vecs[self.word[min(self.k // len(self.names), len(self.word) - 1)]]
        self.k += 1
        self.seen[p.name] = (p.minbound, p.maxbound)
        return self.value(p.name, vec[i])

    def __enter__(self):
        self.old, spotpy.parameter.draw = spotpy.parameter.draw, self
        return self

    def __exit__(self, *a):
        spotpy.parameter.draw = self.old


def draw_of(m, l):
    """What a sampler hands to simulation() for one vector."""
    with Script(m, l):
        return spotpy.parameter.ParameterSet(spotpy.parameter.generate([spotpy.parameter.Uniform(n, 0.0, 1.0) for n in MODELS[m][1]]))


def rank_corr(s, o):
    rk = lambda v: [sum(b < a for b in v) + (sum(b == a for b in v) + 1) / 2 for a in v]
    a, b = rk(s), rk(o)
    ma, mb = sum(a) / len(a), sum(b) / len(b)
    return sum((p - ma) * (q - mb) for p, q in zip(a, b)) / math.sqrt(sum((p - ma) ** 2 for p in a) * sum((q - mb) ** 2 for q in b))


def kge_np(s, o):
    n = len(s)
    fs, fo = sorted(v / sum(s) for v in s), sorted(v / sum(o) for v in o)
    al = 1 - 0.5 * sum(abs(p - q) for p, q in zip(fs, fo))
    return 1 - math.sqrt((rank_corr(s, o) - 1) ** 2 + (al - 1) ** 2 + (sum(s) / sum(o) - 1) ** 2)


def own(obs, sim):
    """An objective function of the user's own: not symmetric in its arguments."""
    return -float(np.sum(np.abs(np.asarray(obs) - np.asarray(sim)) * np.asarray(obs)))


def skill(obj, q, o):
    if obj == "none":
        return kge_np(list(q), list(o))
    if obj == "call":
        return -sum(abs(b - a) * b for a, b in zip(q, o))
    v = score(obj, q, o)
    return -v if obj in ERRORS else v


def objective(name):
    return {"none": None, "call": own}.get(name, name)


# ----------------------------------------------------------------------------------------------- whole calibrations
def c_cal(r, x):
    m, setup, algo, word = r.split(".")
    d = x.dir()
    w, (case, names, vecs) = 2, MODELS[m]
    # the draws: the word, then "a" for ever; the sets that are evaluated: the valid ones of them, one per repetition
    reps = len(word)
    good = [l for l in word if valid(l)]
    good += "a" * (reps - len(good))
    mk, own = Maker(d, m, four=setup == "onefactory"), {}
    with Script(m, word + "a") as sc:
        if setup == "onefactory":
            s = trainer.calibrate_from_factory(mk, algo, reps, warmup=w, obj_func="nse", allow_changing=list(names))
        else:
            if setup in ("eager", "prior"):
                mo, f, o = mk()
                ps = mk.params()
                if setup == "prior":        # a distribution of one's own, in the space of the optimizer
                    for n in list(names)[::2]:
                        v = names[n](3.0) if names[n] else 3.0
                        ps.set_prior(n, spotpy.parameter.Normal(mean=v, stddev=0.5))
                        own[n] = v
                st = trainer.SpotpySetup(mo, ps, f, o, warmup=w, obj_func="nse")
            else:
                st = trainer.SpotpySetup.from_factory(mk, mk.params(), warmup=w, obj_func="nse")
                if setup == "prebuilt":
                    st.evaluation()
            s = trainer.calibrate(st, algo, reps, parallel="mpi" if setup in ("copies", "prebuilt") else "seq")
    df = trainer.get_results(s)
    obs = [observed(j) for j in range(N)][w:]
    x.same(len(df), reps, "count", "number of evaluations")
    want = []
    for k, l in enumerate(good):
        q = reference(mk, vecs[l])[w:]
        want.append(skill("nse", q, obs))
        for n, v in zip(names, vecs[l]):
            x.close(float(df[n].iloc[k]), v, 1e-9, "values", "value of %s in evaluation %d" % (n, k + 1))
        same_score(x, float(df["score"].iloc[k]), want[-1], "score of evaluation %d (%s, %s) after %s", k + 1, setup, algo, word[:k])
        x.step()
    x.state(m, setup, algo, tuple(good))
    best = trainer.get_best(s)
    x.close(best["score"], max(want), 1e-9, "best", "best score")
    x.check(abs(want[best["index"]] - max(want)) < 1e-9, "best", "index of the best score")
    for n, v in zip(names, vecs[good[best["index"]]]):
        x.close(best["parameters"][n], v, 1e-9, "best", "best value of %s" % n)
    # what is reported can be run again
    mo, f = mk.model()
    ps = mk.params()
    ps.set_values(best["parameters"])
    if m == "f":
        f.apply_operations(ps)
    mo.run(ps, f)
    same_score(x, mo.eval("nse", np.array([observed(j) for j in range(N)]), warmup=w), max(want), "score of a run with the best parameters")
    for n, (lo, hi) in sc.seen.items():
        p = mk.params()
        i = p._get_parameter_index(n)
        a, b = p.parameters.loc[i, "min"], p.parameters.loc[i, "max"]
        t = names[n] or (lambda v: v)
        if n in own:
            x.check(abs(lo - own[n] + 1.5) < 1e-9 and abs(hi - own[n] - 1.5) < 1e-9, "prior", "the draws of %s do not follow the given distribution", n)
            continue
        x.close(lo, t(a), 1e-9, "bounds", "lower bound of the draws of %s" % n)
        x.close(hi, t(b), 1e-9, "bounds", "upper bound of the draws of %s" % n)


# ------------------------------------------------------------------------- one set, every objective, warm-up and direction
def c_obj(r, x):
    m, w = r.split(".")
    w, d = int(w), x.dir()
    mk = Maker(d, m)
    vecs = MODELS[m][2]
    obs = [observed(j) for j in range(N)]
    mo, f, o = mk()
    for obj, mini in itertools.product(OBJS, (False, True)):
        st = trainer.SpotpySetup(mo, mk.params(), f, o, warmup=w, obj_func=objective(obj))
        st._minimize = mini
        ev = st.evaluation()
        x.same([float(v) for v in ev[0]], obs[w:], "obs", "observations after %d days" % w)
        for l in vecs:
            x.step()
            sim = st.simulation(draw_of(m, l))
            like = st.objectivefunction(sim, ev, params=None)
            if not valid(l):
                x.check(sim is None, "reject", "the set %s is run", vecs[l])
                x.same(like, WORST if mini else -WORST, "reject", "score of the rejected set %s" % (vecs[l],))
                continue
            q = reference(mk, vecs[l])[w:]
            x.check(len(sim) == 1 and len(sim[0]) == N - w and np.allclose(sim[0], q, rtol=1e-9, atol=1e-12), "run", "simulated %s, should be %s", sim, q)
            v = skill(obj, q, obs[w:])
            same_score(x, like, -v if mini else v, "%s after %d days (minimised: %s)", obj, w, mini)
    x.same(trainer.SpotpySetup(mo, mk.params(), f, o, obj_func="nse", warmup=0).evaluation()[0].tolist(), obs, "obs", "observations")


def c_align(r, x):
    """The observations are matched by date, or refused."""
    a, b, hole, w = r.rsplit(".", 3)
    a, b, w = int(a), int(b), int(w)
    mk = Maker(x.dir(), "g", obs=(a, b), hole=hole)
    mo, f = mk.model()
    o, ps = mk.discharge(), mk.params()
    make = lambda: trainer.SpotpySetup(mo, ps, f, o, warmup=w, obj_func="nse")
    whole = a <= 0 and b >= N - 1 and hole == "-"
    if not whole or w >= N:
        x.check(refused(make) is not None, "refuse", "observations of days %d to %d without %s, warm-up %d", a, b, hole, w)
        return
    st = make()
    x.same(st.evaluation()[0].tolist(), [observed(j) for j in range(w, N)], "align", "observations of days %d to %d" % (w, N - 1))
    sim = st.simulation(draw_of("g", "b"))
    x.check(np.allclose(sim[0], reference(mk, MODELS["g"][2]["b"])[w:], rtol=1e-9, atol=1e-12), "align", "simulated days %d to %d", w, N - 1)


# ----------------------------------------------------------------------------------------------- auxiliary signals
class Sums(AuxiliaryObservation):
    """Sums of the discharge over windows of days: a signal with its own observations."""
    requires_recording = False

    def __init__(self, wins, values, shift=0.0, **kw):
        self.wins, self.values, self.shift = list(wins), list(values), shift
        self.__dict__.update(kw)

    def observed(self):
        return np.array(self.values, dtype=float)

    def simulated(self, model):
        q = np.array(model.get_outlet_discharge())
        return np.array([sum(q[a:b + 1]) + self.shift if a < 90 else np.nan for a, b in self.wins])

    def restrict_to_period(self, start, end):
        t0 = pd.Timestamp(START)
        keep = [(p, v) for p, v in zip(self.wins, self.values)
                if p[0] >= 90 or t0 + pd.Timedelta(days=p[0]) >= pd.Timestamp(start) and t0 + pd.Timedelta(days=p[1]) <= pd.Timestamp(end)]
        self.wins, self.values = [p for p, _ in keep], [v for _, v in keep]


W_AUX = 2
INSIDE = [(2, 3), (4, 4), (5, 8), (3, 7)]


def aux(kind, q):
    """(observation, [windows evaluated with their observed values])"""
    sums = [sum(q[a:b + 1]) for a, b in INSIDE]
    vals = [s * (0.8 + 0.15 * k) + 1 for k, s in enumerate(sums)]
    err = sum(abs(s - v) for s, v in zip(sums, vals)) / len(vals)
    rel = err / (sum(abs(v) for v in vals) / len(vals))
    wins, obs = list(INSIDE), list(vals)
    if kind == "a":
        kw = dict(metric="rmse")
    elif kind == "b":
        kw = dict(metric="nse", weight=2.0)
    elif kind == "c":
        obs[1] = math.nan
        kw = dict(metric="mae", weight=0.5)
    elif kind in "de":
        kw = dict(mode="constraint", tolerance=err * (1.01 if kind == "d" else 0.99))
    elif kind in "fg":
        kw = dict(mode="constraint", relative_tolerance=rel * (1.01 if kind == "f" else 0.99))
    elif kind == "h":
        obs = [math.nan] * len(obs)
        kw = dict(metric="rmse")
    elif kind == "i":
        obs = [5.0] * len(obs)
        kw = dict(metric="rmse", weight=1.5)
    elif kind == "j":                # targets before the end of the warm-up and after the run are left out
        wins = [(0, 3), (1, 2)] + wins + [(7, 11)]
        obs = [99.0, -99.0] + obs + [1e3]
        kw = dict(metric="kge_2012", weight=0.25)
    elif kind == "k":                # a target that cannot be simulated
        wins, obs = wins + [(99, 99)], obs + [7.0]
        kw = dict(metric="mse")
    return Sums(wins, obs, **kw)


def c_aux(word, x):
    word, _, gap = word.partition(".")
    gaps = (3, 6) if gap else ()
    mk = Maker(x.dir(), "g", gaps=gaps)
    l = "b"
    q = list(reference(mk, MODELS["g"][2][l]))
    oq = [math.nan if j in gaps else observed(j) for j in range(N)]
    mo, f, o = mk()
    ps = mk.params()
    for combine, norm, mini, obj, dw in itertools.product(("weighted", "pareto"), (True, False), (False, True), ("none", "nse", "rmse", "call"), (1.0, 0.3)):
        x.step()
        extra = [aux(k, q) for k in word]
        st = trainer.SpotpySetup(mo, ps, f, o, warmup=W_AUX, obj_func=objective(obj), extra_observations=extra, combine=combine,
                                 discharge_weight=dw, normalize=norm)
        st._minimize = mini
        ev, sim = st.evaluation(), st.simulation(draw_of("g", l))
        x.same((len(ev), len(sim)), (1, 1), "series", "number of series")
        x.same(len(ev[0]), len(sim[0]), "series", "lengths of the series")
        got = st.objectivefunction(simulation=sim, evaluation=ev, params=([1.0], ["X1"]))
        # the reference: keep the targets with an observation and a simulation, within the evaluated days
        reject, terms = False, []
        for k in word:
            e = aux(k, q)
            p = [(sum(q[a:b + 1]), v) for (a, b), v in zip(e.wins, e.values) if a >= W_AUX and b < N and not math.isnan(v)]
            if not p:
                reject = True
                continue
            s, v = [t[0] for t in p], [t[1] for t in p]
            if e.mode == "constraint":
                err = sum(abs(i - j) for i, j in p) / len(p)
                lim = e.tolerance if e.tolerance is not None else e.relative_tolerance * sum(map(abs, v)) / len(v)
                reject |= err > lim
                continue
            t = score(e.metric, s, v)
            if e.metric in ERRORS:
                b = score(e.metric, [sum(v) / len(v)] * len(v), v)
                t = 1 - t / b if norm and abs(b) > 1e-12 else -t
                raw = -score(e.metric, s, v)
            else:
                raw = t
            terms.append((e.weight, t, raw))
        if gaps and obj in ("none", "call"):
            continue
        qs = skill(obj, q[W_AUX:], oq[W_AUX:])
        qn = qs
        if norm and obj in ERRORS:
            ob = [v for v in oq[W_AUX:] if not math.isnan(v)]
            qn = 1 + qs / score(obj, [sum(ob) / len(ob)] * len(ob), ob)
        sg = -1 if mini else 1
        n_obj = 1 + sum(aux(k, q).mode == "objective" for k in word)
        if reject:
            want = [sg * -WORST] * n_obj if combine == "pareto" else sg * -WORST
        elif combine == "pareto":
            want = [sg * qs] + [sg * t for _, t, _ in terms]
        else:
            want = sg * (dw * qn + sum(w * t for w, t, _ in terms))
        if combine == "pareto":
            x.same(len(got), len(want), "pareto", "number of objectives")
            for a, b in zip(got, want):
                same_score(x, a, b, "objective of %s (%s, normalise %s, minimise %s)", word, obj, norm, mini)
        else:
            same_score(x, got, want, "weighted score of %s (%s, normalise %s, minimise %s, weight %g)", word, obj, norm, mini, dw)
        # a rejected parameter set has the same shape
        bad = st.objectivefunction(st.simulation(draw_of("g", "Z")), ev)
        x.same(bad, [sg * -WORST] * n_obj if combine == "pareto" else sg * -WORST, "reject", "score of a rejected set")
    # also through copies, as in worker processes: built anew, or taken from those already built in the process
    extra = lambda: [aux(k, q) for k in word]
    st = trainer.SpotpySetup.from_factory(mk, ps, warmup=W_AUX, obj_func="nse", extra_observations=extra())
    fresh, late = copy.deepcopy(st), copy.deepcopy(st)
    ev = fresh.evaluation()
    ref = fresh.objectivefunction(fresh.simulation(draw_of("g", l)), ev)
    for c, what in ((late, "a copy made before the first was built"), (copy.deepcopy(fresh), "a copy of a built one"), (st, "the original")):
        e2 = c.evaluation()
        x.check(len(e2[0]) == len(ev[0]) and np.allclose(e2[0], ev[0], equal_nan=True), "copy", "observations of %s: %s, should be %s", what, e2[0], ev[0])
        s2 = c.simulation(draw_of("g", l))
        x.same(len(s2[0]), len(ev[0]), "copy", "length of the series of %s" % what)
        got = c.objectivefunction(s2, e2)
        x.close(got, ref, 1e-9, "copy", "score of %s" % what)
    x.state(word)


# ----------------------------------------------------------------------------------------------- drawing
def c_par(r, x):
    m, word = r.split(".")
    mk = Maker(x.dir(), m)
    mo, f, o = mk()
    st = trainer.SpotpySetup(mo, mk.params(), f, o, warmup=0)
    names, vecs = MODELS[m][1:]
    if word == "never":
        for l in vecs:
            if not valid(l):
                with Script(m, l):
                    x.check(refused(st.parameters, RuntimeError) is not None, "never", "a set that violates the constraints is returned")
        return
    first = next((l for l in word if valid(l)), "a")
    with Script(m, word + "a") as sc:
        p = st.parameters()
        x.same([str(k) for k in p["name"]], list(names), "draw", "names")
        for n, v, got in zip(names, vecs[first], p["random"]):
            x.close(float(got), sc.value(n, v), 1e-9, "draw", "draw of %s" % n)
        x.same(sc.k, len(names) * (1 + next((k for k, l in enumerate(word) if valid(l)), len(word))), "draw", "number of draws")
    x.step()


# ----------------------------------------------------------------------------------------------- refusals
CONF = ["warmup -1", "warmup 1.5", "warmup 'a'", "params", "model", "forcing", "obs", "empty model", "empty forcing", "empty obs", "ens forcing",
        "ens obs", "obj 3", "combine", "mode", "no tol", "two tol", "extra ens", "extra empty", "no data", "factory 2", "factory list", "eager parallel",
        "workers 0", "workers x", "one factory 3", "best pareto", "best none", "unset"]


def c_conf(r, x):
    what = CONF[int(r)]
    mk = Maker(x.dir(), "g")
    mo, f, o = mk()
    ps = mk.params()
    oq = [1.0] * 4
    args = dict(model=mo, params=ps, forcing=f, discharge=o, warmup=W_AUX, obj_func="nse")
    ok = trainer.SpotpySetup(**args)
    x.check(ok.evaluation()[0].size == N - W_AUX, "valid", "the valid configuration is refused")
    s = lambda **k: Sums(INSIDE, oq, **k)
    make = lambda **k: (lambda: trainer.SpotpySetup(**{**args, **k}))

    def fac(n, kind=tuple):
        return lambda: trainer.SpotpySetup.from_factory(lambda: kind(mk())[:n], ps, warmup=0).evaluation()

    def best(vec):
        st = trainer.SpotpySetup(**{**args, "extra_observations": [aux("a", [1.0] * N)], "combine": "pareto"} if vec else args)
        if not vec:
            st.objectivefunction = lambda **k: math.nan
        with Script("g", "ab"):
            smp = trainer.calibrate(st, "NSGAII", 2, sample_kwargs={"n_obj": 2} if vec else None)
        if vec:
            df = trainer.get_results(smp)
            x.same([c for c in df.columns][:2], ["score1", "score2"], "results", "columns of a result with two objectives")
            for k, l in enumerate("ab"):
                q = list(reference(mk, MODELS["g"][2][l]))
                same_score(x, float(df["score1"].iloc[k]), skill("nse", q[W_AUX:], [observed(j) for j in range(W_AUX, N)]), "first objective")
        return lambda: trainer.get_best(smp)
    two = Maker(x.dir() + "/2", "g") if what.startswith(("ens", "extra ens")) else None
    if two:
        os.makedirs(two.d)
        m2, f2, o2 = two()
    empty = DischargeObservations(day(0), day(N - 1))
    tests = {"warmup -1": lambda: make(warmup=-1), "warmup 1.5": lambda: make(warmup=1.5), "warmup 'a'": lambda: make(warmup="a"),
             "params": lambda: make(params=None), "model": lambda: make(model=None), "forcing": lambda: make(forcing=None), "obs": lambda: make(discharge=None),
             "empty model": lambda: make(model=[]), "empty forcing": lambda: make(forcing=[]), "empty obs": lambda: make(discharge=[]),
             "ens forcing": lambda: make(model=[mo, m2], forcing=[f], discharge=[o, o2]), "ens obs": lambda: make(model=[mo, m2], forcing=[f, f2], discharge=[o]),
             "obj 3": lambda: make(obj_func=3), "combine": lambda: make(extra_observations=[s()], combine="sum"),
             "mode": lambda: make(extra_observations=[s(mode="x")]), "no tol": lambda: make(extra_observations=[s(mode="constraint")]),
             "two tol": lambda: make(extra_observations=[s(mode="constraint", tolerance=1.0, relative_tolerance=1.0)]),
             "extra ens": lambda: make(model=[mo, m2], forcing=[f, f2], discharge=[o, o2], extra_observations=[s()]),
             "extra empty": lambda: make(extra_observations=[Sums([(0, 1)], [1.0])]), "no data": lambda: make(discharge=empty),
             "factory 2": lambda: fac(2), "factory list": lambda: fac(3, list),
             "eager parallel": lambda: (lambda: trainer.calibrate(ok, "mc", 1, parallel="mpi")),
             "workers 0": lambda: (lambda: trainer.calibrate(ok, "mc", 1, n_workers=0)), "workers x": lambda: (lambda: trainer.calibrate(ok, "mc", 1, n_workers="x")),
             "one factory 3": lambda: (lambda: trainer.calibrate_from_factory(mk, "mc", 1, warmup=0)),
             "best pareto": lambda: best(True), "best none": lambda: best(False), "unset": lambda: (lambda: copy.deepcopy(ok))}
    x.check(refused(tests[what]()) is not None, "refuse", "accepted: %s", what)
    x.step()


# ----------------------------------------------------------------------------------------------- several models
def c_ens(r, x):
    la, lb, mini = r[0], r[1], r[2] == "1"
    d = x.dir()
    os.makedirs(d + "/1"), os.makedirs(d + "/2")
    mk1, mk2 = Maker(d + "/1", "g"), Maker(d + "/2", "g", obs=(-2, N), word=tuple(reversed(WORD)))
    (m1, f1, o1), (m2, f2, o2) = mk1(), mk2()
    st = trainer.SpotpySetup([m1, m2], mk1.params(), [f1, f2], [o1, o2], warmup=1, obj_func="nse")
    st._minimize = mini
    oq = [observed(j) for j in range(1, N)]
    for l in (la, lb):
        q1, q2 = (reference(k, MODELS["g"][2][l])[1:] for k in (mk1, mk2))
        sim = st.simulation(draw_of("g", l))
        x.check(len(sim) == 2 and np.allclose(sim[0], q1) and np.allclose(sim[1], q2), "ens", "the series of the two models")
        want = (skill("nse", q1, oq) + skill("nse", q2, oq)) / 2
        same_score(x, st.objectivefunction(sim, st.evaluation()), -want if mini else want, "mean score of two models")
        x.step()


# ------------------------------------------------------------------------------------- a run that fails does not end it
def c_bad(word, x):
    """B: the model raises; E: it has no discharge; the others score as ever."""
    mk = Maker(x.dir(), "g")
    mo, f, o = mk()
    st = trainer.SpotpySetup(mo, mk.params(), f, o, warmup=0, obj_func="nse")
    run_, get_ = mo.run, mo.get_outlet_discharge
    obs = [observed(j) for j in range(N)]

    def fails(*a, **k):
        raise RuntimeError("planned")
    for l in word:
        mo.run, mo.get_outlet_discharge = run_, get_
        if l == "B":
            mo.run = fails
        if l == "E":
            mo.get_outlet_discharge = lambda: np.array([])
        sim = st.simulation(draw_of("g", l if valid(l) else "a"))
        like = st.objectivefunction(sim, st.evaluation())
        if valid(l):
            same_score(x, like, skill("nse", reference(mk, MODELS["g"][2][l]), obs), "score of %s in %s", l, word)
        else:
            x.check(sim is None and like == -WORST, "reject", "a run that fails scores %s", like)
        x.step()
    # series that do not match are the worst possible, whatever the direction
    for mini in (False, True):
        st._minimize = mini
        v = st.objectivefunction([np.ones(3)], [np.ones(4)])
        x.check(v == (math.inf if mini else -math.inf) or v == (WORST if mini else -WORST), "reject", "series of different lengths score %s", v)
        v = st.objectivefunction([np.ones(0)], [np.ones(4)])
        x.check(v == (math.inf if mini else -math.inf) or v == (WORST if mini else -WORST), "reject", "an empty series scores %s", v)


def c_per(r, x):
    """With periods, the whole calibration period is scored, after the spin-up; other set-ups are refused."""
    k, spin = map(int, r.split("."))
    mk = Maker(x.dir(), "g")
    cal = [(0, N - 1), (0, 4), (3, N - 1)][k]
    p = Periods(calibration=(day(cal[0]), day(cal[1])), simulation=(day(0), day(N - 1)), spinup=2 * spin)
    m, f = mk.model(period=p.calibration, spinup=p.spinup)
    ps = mk.params()
    st = trainer.SpotpySetup(m, ps, f, mk.discharge(), periods=p, obj_func="nse")
    x.same(st.evaluation()[0].tolist(), [observed(j) for j in range(cal[0], cal[1] + 1)], "period", "observations of the calibration period")
    sim = st.simulation(draw_of("g", "b"))
    x.same(len(sim[0]), cal[1] - cal[0] + 1, "period", "length of the simulated series")
    ps.set_values(dict(zip(MODELS["g"][1], MODELS["g"][2]["b"])))
    m2, f2 = mk.model(period=p.calibration, spinup=p.spinup)
    m2.run(ps, f2)
    x.check(np.allclose(sim[0], m2.get_outlet_discharge(), rtol=1e-9), "period", "simulated series")
    x.check(refused(lambda: trainer.SpotpySetup(m, ps, f, mk.discharge(), periods=p, warmup=0)) is not None, "refuse", "periods and a warm-up")
    v = Periods(validation=(day(0), day(N - 1)))
    x.check(refused(lambda: trainer.SpotpySetup(m, ps, f, mk.discharge(), periods=v)) is not None, "refuse", "no calibration period")
    for a, b in ((0, N - 2), (1, N - 1), (1, 4)):
        q = Periods(calibration=(day(a), day(b)))
        if (a, b) != cal:
            x.check(refused(lambda: trainer.SpotpySetup(m, ps, f, mk.discharge(), periods=q)) is not None, "refuse", "a model set up over other dates")
    # the default warm-up is a year
    x.check(refused(lambda: trainer.SpotpySetup(m, ps, f, mk.discharge())) is not None, "refuse", "a warm-up of a year for %d days", N)


# -------------------------------------------------------------------- what is written down for every set that is evaluated
def c_dump(r, x):
    m, what, word = r.split(".")
    d, (case, names, vecs) = x.dir(), MODELS[m]
    good = [l for l in word if valid(l)]
    good += "a" * (len(word) - len(good))
    mk = Maker(d, m)
    mo, f, o = mk()
    to = d + "/dumps/deep"
    st = trainer.SpotpySetup(mo, mk.params(), f, o, warmup=2, obj_func="nse", dump_outputs=what[0] == "1", dump_forcing=what[1] == "1", dump_dir=to)
    with Script(m, word + "a"):
        trainer.calibrate(st, "mc", len(word), parallel="seq")
    x.step(len(word))
    x.state(m, what, tuple(good))
    found = sorted(os.listdir(to)) if os.path.isdir(to) else []
    if what == "00":
        return x.same(found, [], "count", "folders written without being asked for")
    x.same(len(found), len(word), "count", "folders written for %d evaluations" % len(word))
    for sub, l in zip(found, good):
        x.same(sorted(os.listdir(os.path.join(to, sub))), ["forcing_0.nc"] * (what[1] == "1") + ["results.nc"] * (what[0] == "1"), "files", "files of one evaluation")
        want = reference(mk, vecs[l])
        if what[0] == "1":
            with hb.Results(os.path.join(to, sub, "results.nc")) as res:
                k = list(res.labels_aggregated).index("outlet") if isinstance(res.labels_aggregated, (list, tuple)) else 0
                x.check(np.array_equal(np.asarray(res.results["sub_basin_values"])[k], want), "outputs", "the outputs written for %s are not the ones of this set", l)
        if what[1] == "1":
            cls, opt, covers, types = parse(case)
            mk.n += 1
            own = "%s/r%d" % (d, mk.n)
            os.makedirs(own)
            hu, _ = catchment(own, covers, types)
            again = cls(land_cover_names=list(covers), land_cover_types=list(types), **opt)
            ps = mk.params()
            ps.set_values({k: v for k, v in zip(names, vecs[l])})
            g = hb.Forcing(hu)
            g.load_from(os.path.join(to, sub, "forcing_0.nc"))
            again.setup(hu, own, START, day(N - 1))
            again.run(ps, g)
            q = again.get_outlet_discharge()
            x.check(np.allclose(q, want, rtol=1e-5, atol=1e-6), "forcing", "the forcing written for %s gives another run: %s, expected %s", l, q, want)
