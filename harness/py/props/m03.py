"""M03: a parameter set keeps its names, values, ranges and constraints consistent through any sequence of operations."""
import copy
import json
import math
import random

import yaml

from props.common import *

OPS = ["set1", "set2", "hi", "lo", "adapt", "raw", "nan", "np", "list", "listhi", "listadapt", "listlen", "scalar", "unknown",
       "two", "list raw", "tight", "wide", "bad range", "bad range2", "alias", "alias list", "alias dup", "alias list dup",
       "define", "define dup", "define dup2", "define range", "define str", "define listdef", "define mand", "data", "data dup", "con1", "con2",
       "con bad", "uncon", "transform", "transformed", "transformed hi", "rand", "rand2", "randlist", "randfail", "allow", "save"]
CORE = ["set1", "hi", "adapt", "raw", "list", "listadapt", "two", "tight", "alias", "alias dup", "define", "define str", "data",
        "con1", "con2", "uncon", "transform", "transformed", "rand", "randlist", "save"]


def cases(tier):
    full = tier == "thorough"
    for n in (1, 2, 3):
        for w in itertools.product(range(len(OPS)), repeat=n):
            if n == 3 and not full and not (OPS[w[0]] in CORE and OPS[w[1]] in CORE and w[0] != w[1]):
                continue
            yield "ops/" + ".".join(map(str, w))
    if full:
        c = [OPS.index(o) for o in CORE]
        for w in itertools.product(c, repeat=4):
            yield "ops/" + ".".join(map(str, w))
    for a, b in itertools.product(range(9), repeat=2):          # pairs of values around each other, every operator
        yield "con/%d.%d" % (a, b)
    for k in range(3):
        for w in itertools.product("lmh", repeat=4):
            yield "draw/%d.%s" % (k, "".join(w))


class Ref:
    def __init__(self):
        self.p, self.cons, self.tr, self.allow = [], [], {}, []

    def find(self, name):
        for k, q in enumerate(self.p):
            if name.lower() == (q["c"] + ":" + q["n"]).lower() or name.lower() in [a.lower() for a in q["al"]]:
                return k
        return None

    def used(self, aliases):
        return any(a.lower() in [b.lower() for q in self.p for b in q["al"]] for a in aliases)

    def add(self, c, n, al, lo, hi, default, mandatory, value=None):
        self.p.append(dict(c=c, n=n, al=list(al), lo=lo, hi=hi, d=default, v=value if mandatory else default))


def inside(v, lo, hi):
    return not math.isnan(v) and (lo is None or v >= lo) and (hi is None or v <= hi)


def ok_range(q, v):
    if isinstance(q["lo"], list):
        return isinstance(v, list) and len(v) == len(q["lo"]) and all(map(inside, v, q["lo"], q["hi"]))
    return not isinstance(v, list) and inside(v, q["lo"], q["hi"])


def holds(a, op, b):
    return {">": a > b, "gt": a > b, ">=": a >= b, "ge": a >= b, "<": a < b, "lt": a < b, "<=": a <= b, "le": a <= b}[op]


def base():
    ps, r = hb.ParameterSet(), Ref()
    define(ps, r, "store", "capacity", ["A", "cap"], 1.0, 10.0, None, True)
    define(ps, r, "type:snowpack,type:glacier", "rate", None, 0.0, 1.0, 0.5, False)
    define(ps, r, "store", "gains", ["g"], [-1.0, 0.0, 0.5], [1.0, 2.0, 0.5], None, True)
    ps.add_data_parameter("corr", 1.0, 0.5, 2.0, "-")
    r.add("data", "corr", ["corr"], 0.5, 2.0, 1.0, False)
    return ps, r


def define(ps, r, c, n, al, lo, hi, d, m):
    given = copy.deepcopy((al, lo, hi, d))
    ps.define_parameter(component=c, name=n, unit="u", aliases=al, min_val=lo, max_val=hi, default=d, mandatory=m)
    assert (al, lo, hi, d) == given
    r.add(c, n, [al] if isinstance(al, str) else al or [], copy.deepcopy(lo), copy.deepcopy(hi), copy.deepcopy(d), m)


class Draws:
    """Replaces the source of random numbers: the fractions of the range that are drawn, one after the other."""

    def __init__(self, script):
        self.script, self.n = script, 0

    def next(self):
        v = self.script[min(self.n, len(self.script) - 1)] if not callable(self.script) else self.script(self.n)
        self.n += 1
        return v

    def __enter__(self):
        self.old = random.uniform, random.random
        random.uniform = lambda a, b: a + (b - a) * self.next()
        random.random = self.next
        return self

    def __exit__(self, *a):
        random.uniform, random.random = self.old


def audit(ps, r, x, after):
    x.same(len(ps.parameters), len(r.p), "count", "number of parameters after " + after)
    for k, q in enumerate(r.p):
        full = q["c"] + ":" + q["n"]
        for name in [full, full.upper()] + [f(a) for a in q["al"] for f in (str, str.upper, str.lower)]:
            if r.find(name) != k:
                continue
            x.check(ps.has(name), "name", "%r is not found after %s", name, after)
            got = ps.get(name)
            same = got == q["v"] or isinstance(got, float) and isinstance(q["v"], float) and math.isnan(got) and math.isnan(q["v"])
            x.check(same and isinstance(got, list) == isinstance(q["v"], list), "value", "%s is %r after %s, expected %r", name, got, after, q["v"])
            x.same(ps.is_for_forcing(name), q["c"] == "data", "forcing", "%s relates to the forcing" % name)
            t = r.tr.get(k)
            x.same(ps.get_transform(name) is not None, t is not None, "transform", "transform of %s after %s" % (name, after))
            if q["v"] is not None and not isinstance(q["v"], list) and not math.isnan(q["v"]) and q["v"] > 0:
                x.close(ps.get_transformed(name), math.log(q["v"]) if t else q["v"], 1e-9, "transform", "transformed " + name)
        row = ps.parameters.loc[k]
        for col, key in (("min", "lo"), ("max", "hi"), ("default", "d"), ("component", "c"), ("name", "n")):
            x.same(row[col], q[key], "record", "%s of %s after %s" % (col, full, after))
    for name in ("nothing", "", "capacity", "store", "store:", "a2", "AA", "K", "z"):
        x.same(ps.has(name), r.find(name) is not None, "name", "has(%r) after %s" % (name, after))
    undefined = [q["n"] for q in r.p if q["v"] is None]
    x.same(ps.get_undefined(), undefined, "undefined", "undefined parameters after " + after)
    x.same((ps.is_valid(), ps.are_valid()), (not undefined,) * 2, "valid", "is_valid after " + after)
    x.same(list(ps.get_model_parameters()["name"]), [q["n"] for q in r.p if q["c"] != "data"], "model", "model parameters")
    x.same(bool(ps.range_satisfied()), all(q["v"] is not None and ok_range(q, q["v"]) for q in r.p), "range", "range_satisfied after " + after)
    live = [(r.p[r.find(a)]["v"], o, r.p[r.find(b)]["v"]) for a, o, b in r.cons if r.find(a) is not None and r.find(b) is not None]
    if all(a is not None and b is not None for a, _, b in live):
        x.same(bool(ps.constraints_satisfied()), all(holds(*c) for c in live), "constraint", "constraints_satisfied after " + after)
    x.state([(q["c"], q["n"], tuple(q["al"]), str(q["v"]), str(q["lo"]), str(q["hi"])) for q in r.p], r.cons, sorted(r.tr), r.allow)


def step(op, ps, r, x, d):
    cap, rate, gains, corr = 0, 1, 2, 3

    def put(values, fits, **kw):
        """set_values, refused unless fits; the values given by the caller are left alone."""
        given = copy.deepcopy(values)
        e = refused(lambda: ps.set_values(values, **kw), AssertionError)
        x.check(repr(values) == repr(given), "mutated", "the caller's values became %r (%s)", values, op)
        if fits:
            x.check(e is None, "refused", "%s was refused: %s", op, e)
        else:
            x.check(e is not None, "accepted", "%s was accepted: %r", op, given)
        return fits

    def one(k, name, v, **kw):
        if put({name: v}, ok_range(r.p[k], v), **kw):
            r.p[k]["v"] = v

    if op == "set1":
        one(cap, "a", 4.0)
    elif op == "set2":
        one(cap, "STORE:Capacity", 9)
        one(corr, "Corr", 1.5)
    elif op == "hi":
        one(cap, "cap", 10.000001)
        one(rate, "type:snowpack,type:glacier:rate", 7.0)
        one(corr, "corr", 2.5)
    elif op == "lo":
        one(cap, "cap", 0.5)
        one(rate, "type:snowpack,type:glacier:rate", -1e-9)
    elif op == "adapt":
        for k, n, v in ((cap, "A", 50.0), (rate, "type:snowpack,type:glacier:rate", -3.0)):
            lo, hi = r.p[k]["lo"], r.p[k]["hi"]
            put({n: v}, True, allow_adapt=True)
            r.p[k]["v"] = min(max(v, lo), hi)
    elif op == "raw":
        put({"cap": 99.0}, True, check_range=False)
        r.p[cap]["v"] = 99.0
    elif op == "nan":
        one(cap, "cap", float("nan"))
    elif op == "np":
        one(cap, "cap", np.float64(3.25))
    elif op == "list":
        one(gains, "g", [0.25, 1.0, 0.5])
    elif op == "listhi":
        one(gains, "g", [0.25, 2.5, 0.5])
        one(gains, "g", [0.25, 1.5, 0.4])
    elif op == "listadapt":
        put({"G": [-7.0, 1.5, 8.0]}, True, allow_adapt=True)
        r.p[gains]["v"] = [-1.0, 1.5, 0.5]
    elif op == "listlen":
        one(gains, "g", [0.25, 1.0])
        one(gains, "g", [0.25, 1.0, 0.5, 0.5])
    elif op == "scalar":
        one(gains, "g", 0.5)
    elif op == "list raw":
        v = [0.0, 3.0, 0.5] if r.p[gains]["v"] is None else [-2.0, 0.5, 0.5]
        put({"g": list(v)}, True, check_range=False)
        r.p[gains]["v"] = v
    elif op == "unknown":
        put({"capacity": 4.0}, False)
        put({"": 4.0}, False)
        put({"store:cap": 4.0}, False)
    elif op == "two":
        if put({"A": 2.0, "type:snowpack,type:glacier:rate": 0.75}, ok_range(r.p[cap], 2.0) and ok_range(r.p[rate], 0.75)):
            r.p[cap]["v"], r.p[rate]["v"] = 2.0, 0.75
        else:                                       # which of the two was taken is not specified
            for k in (cap, rate):
                r.p[k]["v"] = ps.parameters.loc[k, "value"]
    elif op in ("tight", "wide", "bad range", "bad range2"):
        k, n, lo, hi = {"tight": (cap, "A", 3.0, None), "wide": (cap, "cap", None, 60.0), "bad range": (cap, "cap", 70.0, None),
                        "bad range2": (rate, "type:snowpack,type:glacier:rate", 0.8, 0.2)}[op]
        q = r.p[k]
        nlo, nhi = q["lo"] if lo is None else lo, q["hi"] if hi is None else hi
        e = refused(lambda: ps.change_range(n, lo, hi))
        x.check((e is None) == (nlo <= nhi), "range" if e else "accepted", "range [%s, %s] of %s: %s", nlo, nhi, n, e)
        if nlo <= nhi:
            q["lo"], q["hi"] = nlo, nhi
    elif op.startswith("alias"):
        k, n, al = {"alias": (rate, "type:snowpack,type:glacier:rate", "kr"), "alias list": (cap, "store:capacity", ["B", "a2"]),
                    "alias dup": (rate, "type:snowpack,type:glacier:rate", "CAP"), 
                    "alias list dup": (gains, "g", ["fresh", "Corr"])}[op]
        given = copy.deepcopy(al)
        e = refused(lambda: ps.add_aliases(n, al))
        x.same(al, given, "mutated", "aliases of the caller")
        lst = [al] if isinstance(al, str) else al
        own = [a.lower() for a in r.p[k]["al"]]
        if r.used([a for a in lst if a.lower() not in own]):
            x.check(e, "accepted", "alias %s was accepted although it exists", al)
        elif not any(a.lower() in own for a in lst):
            x.check(e is None, "refused", "alias %s was refused: %s", al, e)
            r.p[k]["al"] += lst
        else:                                       # an alias that the parameter has already: not specified
            r.p[k]["al"] = list(ps.parameters.at[k, "aliases"])
    elif op.startswith("define"):
        a = {"define": ("lake", "lag", ["L%d" % len(r.p)], None, 5.0, 2.0, False), "define dup": ("lake", "x", ["z1", "cAP"], 0.0, 1.0, None, True),
             "define dup2": ("lake", "y", ["Corr"], None, None, None, True), "define range": ("lake", "z", ["zz"], 2.0, 1.0, None, True),
             "define str": ("pond", "depth", "kgl", 0.0, 3.0, None, True),
             "define mand": ("pond", "dm%d" % len(r.p), [], 0.0, 3.0, 1.5, True),
             "define listdef": ("pond", "ld%d" % len(r.p), ["ld"], [0.0, 0.0], [1.0, 4.0], [0.5, 2.0], False)}[op]
        al = [a[2]] if isinstance(a[2], str) else a[2]
        bad = r.used(al) or a[3] is not None and a[4] is not None and a[3] > a[4]
        q = Ref() if bad else r
        e = refused(lambda: define(ps, q, *a))
        x.check((e is not None) == bad, "accepted" if bad else "refused", "%s: %s", op, e)
    elif op.startswith("data"):
        n = "corr" if op == "data dup" else "pg%d" % len(r.p)
        v, lo, hi = ([0.0] * 12, [-1.0] * 12, [1.0] * 12) if len(r.p) % 2 else (0.1, -1.0, 1.0)
        bad = r.used([n])
        for a, b in ((2.0, 1.0), ([0.0, 2.0], [1.0, 1.0]), ([0.0], [1.0, 1.0]), ([0.0], 1.0)):
            x.check(refused(lambda: ps.add_data_parameter("other", None, a, b)), "accepted", "the range %s, %s was accepted", a, b)
        e = refused(lambda: ps.add_data_parameter(n, v, lo, hi))
        x.check((e is not None) == bad, "accepted" if bad else "refused", "%s: %s", op, e)
        if not bad:
            r.add("data", n, [n], lo, hi, copy.copy(v), False)
    elif op in ("con1", "con2"):
        c = {"con1": ("type:snowpack,type:glacier:rate", "<", "A"), "con2": ("cap", ">=", "Corr")}[op]
        ps.define_constraint(*c)
        ps.define_constraint("unused", "<", "A")
        r.cons += [c, ("unused", "<", "A")]
    elif op == "con bad":
        for bad in ("==", "=<", "", "less"):
            x.check(refused(lambda: ps.define_constraint("cap", bad, "Corr")), "accepted", "constraint operator %r was accepted", bad)
        x.same(len(ps.constraints), len(r.cons), "constraint", "number of constraints")
        for c in (("g", "<", "corr"), ("corr", "<", "g")):
            if r.p[gains]["v"] is not None and not r.cons:
                ps.define_constraint(*c)
                x.check(refused(ps.constraints_satisfied), "accepted", "a constraint on a list was accepted")
                ps.remove_constraint(*c)
    elif op == "uncon":
        ps.remove_constraint("cap", ">=", "Corr")
        ps.remove_constraint("cap", "<", "Corr")       # not defined
        ps.remove_constraint("A", "<", "Corr")
        ps.remove_constraint("type:snowpack,type:glacier:rate", "<", "cap")
        ps.remove_constraint("corr", "<", "A")
        if ("cap", ">=", "Corr") in r.cons:
            r.cons.remove(("cap", ">=", "Corr"))
    elif op == "transform":
        ps.set_transform("cap", math.log, math.exp)
        r.tr[cap] = True
        x.check(refused(lambda: ps.set_transform("g", math.log, math.exp)), "accepted", "a transform of a list was accepted")
    elif op in ("transformed", "transformed hi"):
        v = 1.25 if op == "transformed" else 6.0
        real = math.exp(v) if cap in r.tr else v
        if put({"A": v}, ok_range(r.p[cap], real), transformed=True):
            r.p[cap]["v"] = real
        if op == "transformed":
            one(rate, "type:snowpack,type:glacier:rate", 0.25, transformed=True)
    elif op.startswith("rand"):
        names = {"rand": ["A"], "rand2": ["cap", "type:snowpack,type:glacier:rate", "corr"], "randlist": ["g", "A"], "randfail": ["cap", "corr"]}[op]
        draw(ps, r, x, names, [0.0, 1.0, 0.5, 0.25, 0.75, 0.9] if op != "randfail" else [0.0])
    elif op == "allow":
        for a in (["A", "g"], ["A", "CORR"], ["type:snowpack,type:glacier:rate"]):
            ps.allow_changing = list(a)
            x.same(list(ps.allow_changing), a, "allow", "allow_changing")
            x.same(bool(ps.needs_random_forcing()), "CORR" in a, "forcing", "needs_random_forcing of %s" % a)
        ps.allow_changing = ["capacity"]
        x.check(refused(ps.needs_random_forcing), "accepted", "an unknown parameter to change was accepted")
        ps.allow_changing = []
    elif op == "save":
        want = {}
        for q in r.p:
            want.setdefault(q["c"], {})[q["n"]] = q["v"]
        ps.save_as(d, "p", "both")
        for ext, load in (("json", json.load), ("yaml", yaml.safe_load)):
            with open(os.path.join(d, "p." + ext)) as f:
                text = f.read()
            try:
                got = json.loads(text) if ext == "json" else yaml.safe_load(text)
            except Exception as e:
                x.check(False, "file", "the %s file cannot be read: %s", ext, e)
            x.check(repr(got) == repr(plain(want)) or got == plain(want), "file", "%s file: %s, expected %s", ext, got, want)


def plain(v):
    if isinstance(v, dict):
        return {k: plain(w) for k, w in v.items()}
    if isinstance(v, list):
        return [plain(w) for w in v]
    return float(v) if isinstance(v, float) else v


def draw(ps, r, x, names, script):
    """Random values of some parameters, for a given sequence of draws."""
    ks = [r.find(n) for n in names]
    before = [copy.deepcopy(q["v"]) for q in r.p]
    live = [(a, o, b) for a, o, b in r.cons if r.find(a) is not None and r.find(b) is not None]
    if any(before[r.find(n)] is None and r.find(n) not in ks for a, o, b in live for n in (a, b)):
        return                                     # a constraint on a parameter without a value
    with Draws(script) as dr:
        e = refused(lambda: out.append(ps.set_random_values(list(names))) if True else None) if (out := []) is not None else None
    got = [ps.parameters.loc[k, "value"] for k in range(len(r.p))]
    for k, q in enumerate(r.p):
        if k in ks:
            x.check(got[k] is not None and ok_range(q, got[k]), "random", "random value %r of %s is outside [%s, %s]", got[k], q["n"], q["lo"], q["hi"])
        else:
            x.check(repr(got[k]) == repr(before[k]), "random", "%s changed to %r", q["n"], got[k])
        q["v"] = copy.deepcopy(got[k])
    good = all(holds(r.p[r.find(a)]["v"], o, r.p[r.find(b)]["v"]) for a, o, b in live)
    x.check((e is None) == good, "random", "constraints %s satisfied, but %s", "are" if good else "are not", e)
    if e is None:
        a = out[0]
        x.same([c for c in a.columns], names, "random", "columns of the returned values")
        for n, k in zip(names, ks):
            x.same(a.loc[0, n], r.p[k]["v"], "random", "returned value of %s" % n)
    x.dim("draws", dr.n)


def run(case, x):
    kind, arg = case.split("/")
    d = x.dir()
    if kind == "ops":
        ps, r = base()
        for w in arg.split("."):                    # what holds after a prefix is the matter of the case of that prefix
            op = OPS[int(w)]
            x.step()
            step(op, ps, r, x, d)
        audit(ps, r, x, op)
    elif kind == "con":
        values = [-2.0, -1, 0.0, 1e-12, 0.5, 1, 1.0, 1.0000001, 3]
        a, b = (values[int(v)] for v in arg.split("."))
        for op in (">", "gt", ">=", "ge", "<", "lt", "<=", "le"):
            ps = hb.ParameterSet()
            ps.define_parameter("s", "a", aliases=["a"])
            ps.define_parameter("s", "b", aliases=["b"])
            ps.set_values({"a": a, "b": b})
            ps.define_constraint("s:a", op, "B")
            x.step()
            x.same(bool(ps.constraints_satisfied()), holds(a, op, b), "constraint", "%r %s %r" % (a, op, b))
            ps.remove_constraint("s:a", op, "B")
            x.check(ps.constraints_satisfied(), "constraint", "a removed constraint is still there")
    else:
        k, w = arg.split(".")
        ps, r = base()
        ps.set_values({"A": 4.0, "g": [0.0, 1.0, 0.5]})
        r.p[0]["v"], r.p[2]["v"] = 4.0, [0.0, 1.0, 0.5]
        for c in [[], [("cap", ">", "corr")], [("cap", "<=", "corr"), ("type:snowpack,type:glacier:rate", "<", "cap")]][int(k)]:
            ps.define_constraint(*c)
            r.cons.append(c)
        script = [{"l": 0.0, "m": 0.5, "h": 1.0}[e] for e in w]
        for names in (["cap", "Corr"], ["CORR", "type:snowpack,type:glacier:rate", "A"], ["g", "cap"]):
            x.step()
            # the same draws again and again, until one fits
            draw(ps, r, x, names, lambda n: script[n % len(script)] if n < 12 else (0.0, 1.0, 0.5, 0.97)[n * 7 // 5 % 4])
            audit(ps, r, x, "draws")
