#!/usr/bin/env python3
"""Exhaustive exploration of the Python package of /repo, on the real core through the real bindings.

pyexplore.py PROP --tier T --shard i/n --out F --progress F [--replay CASE] [-v]

Same interface and output as the C++ explorer (see check.py).  Each property is a module props/<prop>.py with
cases(tier) -> iterator of case names, and run(case, x).  A feature of a library that the stand-ins in shims/ do not
have makes a case undecided (counted), never a violation."""
import argparse
import importlib
import json
import os
import random
import signal
import struct
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
SHIMS = os.path.join(HERE, "shims")
sys.path.insert(0, HERE)
warnings.simplefilter("ignore")


class Fail(Exception):
    def __init__(self, key, msg):
        super().__init__(msg)
        self.key, self.msg = key, msg


class X:
    """What a case reports to."""

    def __init__(self, verbose=False):
        self.transitions = self.validated = 0
        self.dims, self.states = {}, set()
        self.verbose = verbose
        self.scratch = os.environ.get("HB_SCRATCH", "/tmp/hb-scratch-%d" % os.getpid())
        self.tier = "quick"

    def dim(self, k, n=1):
        self.dims[k] = self.dims.get(k, 0) + n

    def step(self, n=1):
        self.transitions += n

    def state(self, *v):
        h = 1469598103934665603
        for b in repr(v).encode():
            h = ((h ^ b) * 1099511628211) & 0xffffffffffffffff
        self.states.add(h)

    def ok(self, n=1):
        self.validated += n

    def check(self, cond, key, msg, *a):
        self.validated += 1
        if not cond:
            raise Fail(key, (msg % a) if a else msg)

    def same(self, got, want, key, what):
        self.check(got == want, key, "%s: got %r, expected %r", what, got, want)

    def close(self, got, want, tol, key, what):
        import numpy as np
        g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        good = g.shape == w.shape and bool(np.all((np.abs(g - w) <= tol * np.maximum(1, np.abs(w))) |
                                                  (np.isnan(g) & np.isnan(w)) | (g == w)))
        self.check(good, key, "%s: got %s, expected %s", what, _short(g), _short(w))

    def dir(self, name="d"):
        import tempfile
        os.makedirs(self.scratch, exist_ok=True)
        return tempfile.mkdtemp(prefix=name + "-", dir=self.scratch)


def _short(a):
    s = repr(a.tolist())
    return s if len(s) < 300 else s[:300] + "..."


def shim_limit(e):
    """The exception chain contains a missing stand-in feature, or comes out of the stand-ins' own code."""
    import pandas
    seen = 0
    while e is not None and seen < 8:
        if isinstance(e, pandas.ShimMissing):
            return str(e)
        if isinstance(e, (TypeError, AttributeError, NameError, NotImplementedError)) and not isinstance(e, pandas.NoSuchColumn) and e.__traceback__:
            last = traceback.extract_tb(e.__traceback__)[-1]
            if last.filename.startswith(SHIMS):
                return "%s: %s at %s:%d" % (type(e).__name__, e, os.path.basename(last.filename), last.lineno)
        if isinstance(e, (ImportError,)) and not str(getattr(e, "name", "") or "").startswith("hydrobricks"):
            return "import: %s" % e
        e, seen = e.__cause__ or e.__context__, seen + 1
    return None


class Hang(Exception):
    pass


def alarm(*a):
    raise Hang()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--shard", default="0/1")
    ap.add_argument("--out")
    ap.add_argument("--progress")
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    i, n = map(int, a.shard.split("/"))
    x = X(a.v)
    x.tier = a.tier
    out = dict(cases=0, enumerated=0, transitions=0, validated=0, dims={}, samples=[], failures=[], failureCount={})
    pf = open(a.progress, "r+b" if os.path.exists(a.progress or "") else "w+b", buffering=0) if a.progress else None
    undecided = {}
    try:
        import pandas
        mod = importlib.import_module("props." + a.prop.lower())
    except BaseException as e:
        why = shim_limit(e)
        if why is None:
            if not isinstance(e, Exception) or isinstance(e, ModuleNotFoundError) and "props" in str(e.name):
                raise
            traceback.print_exc()
            out["failures"].append(dict(key="import", case="import", msg="the package cannot be imported: %r" % e))
            out["failureCount"]["import"] = 1
        else:
            undecided[why] = 1
        mod = None
    signal.signal(signal.SIGALRM, alarm)
    limit = getattr(mod, "CASE_LIMIT", 60)
    k = 0
    for case in ([a.replay] if a.replay else mod.cases(a.tier)) if mod else ():
        k += 1
        if not a.replay and (k - 1) % n != i:
            continue
        if pf:
            pf.seek(0)
            pf.write(case.encode()[:1000] + b"\0")
        out["cases"] += 1
        random.seed(0)
        signal.alarm(limit)
        fail = None
        try:
            mod.run(case, x)
        except Fail as e:
            fail = (e.key, e.msg)
        except Hang:
            fail = ("hang", "no answer after %d s" % limit)
        except BaseException as e:
            why = shim_limit(e)
            if why is not None:
                undecided[why] = undecided.get(why, 0) + 1
                x.dim("undecided")
            elif isinstance(e, (KeyboardInterrupt, MemoryError)):
                raise
            else:
                tb = traceback.extract_tb(e.__traceback__)
                where = next(("%s:%s" % (os.path.basename(f.filename), f.name) for f in reversed(tb)
                              if "hydrobricks" in f.filename), "%s:%s" % (os.path.basename(tb[-1].filename), tb[-1].name))
                fail = ("exception:%s" % type(e).__name__, "unexpected %s: %s (in %s)" % (type(e).__name__, str(e)[:300], where))
                if a.v:
                    traceback.print_exc()
        finally:
            signal.alarm(0)
        if fail:
            key = fail[0]
            c = out["failureCount"].get(key, 0)
            out["failureCount"][key] = c + 1
            if c < 20:
                out["failures"].append(dict(key=key, case=case, msg=fail[1][:1500]))
        if out["cases"] in (1, 2, 3, 5, 8, 13, 21, 34, 55, 89):
            out["samples"].append(case)
    out["enumerated"] = k
    out["undecided"] = undecided
    out.update(transitions=x.transitions, validated=x.validated, dims=x.dims)
    s = json.dumps(out, default=float)
    if a.out in (None, "/dev/stdout"):
        print(s)
    else:
        with open(a.out + ".states", "wb") as f:
            f.write(struct.pack("<%dQ" % len(x.states), *x.states))
        with open(a.out, "w") as f:
            f.write(s)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    sys.modules["pyexplore"] = sys.modules["__main__"]
    main()
