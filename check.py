#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] | --replay <file> | --setup

Builds the explorer from /repo's working tree, runs the exhaustive exploration of one property in parallel
shards, merges the results, writes evidence/<id>.json and reports violations."""
import argparse, hashlib, json, os, shutil, struct, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import hbuild

VERIF = hbuild.VERIF
RUN = os.path.join(hbuild.BUILD, "run")
REPLAYS = os.path.join(VERIF, "replays")
EVID = os.path.join(VERIF, "evidence")
LIMIT = {"quick": 800, "thorough": 6 * 3600}


def known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop and k.get("status") == "open"]


def matches(k, f):
    return k["key"] == f["key"] and f["case"] in k["cases"]


def flavour_of(meta, tier):
    f = meta.get("flavour", "rel")
    return f if isinstance(f, str) else f.get(tier, "rel")


def env_for(flavour):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=97:allocator_may_return_null=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=0:exitcode=97"
    e["TZ"] = "UTC"
    e["HB_SCRATCH"] = os.path.join(RUN, "scratch-%d" % os.getpid())  # the only place the cases write to
    return e


class PyExe:
    """The Python package of the working tree, copied next to the extension module built from the real bindings."""

    def __init__(self, log):
        so = hbuild.build("rel", log, py=True)
        self.dir = os.path.join(RUN, "pkg-%d" % os.getpid())
        shutil.rmtree(self.dir, ignore_errors=True)
        shutil.copytree(os.path.join(hbuild.REPO, "python", "src", "hydrobricks"), os.path.join(self.dir, "hydrobricks"),
                        ignore=shutil.ignore_patterns("__pycache__", "*.so", "*.pyd"))
        shutil.copy(os.path.join(so, "_hydrobricks.so"), os.path.join(self.dir, "hydrobricks", "_hydrobricks.so"))
        self.cmd = ["python3-vt", "-u", os.path.join(VERIF, "harness", "py", "pyexplore.py")]

    def env(self, e):
        e["PYTHONPATH"] = os.path.join(VERIF, "harness", "py", "shims") + ":" + self.dir
        e["PYTHONDONTWRITEBYTECODE"] = "1"
        e["PYTHONHASHSEED"] = "0"
        e["OMP_NUM_THREADS"] = e["OPENBLAS_NUM_THREADS"] = "1"
        return e

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def launch(exe, prop, tier, i, n, tag, extra=()):
    out = os.path.join(RUN, "%s-%s-%d.json" % (tag, prop, i))
    prog = out + ".progress"
    for f in (out, prog, out + ".states", out + ".err"):
        if os.path.exists(f):
            os.unlink(f)
    cmd = [exe, prop, "--tier", tier, "--shard", "%d/%d" % (i, n), "--out", out, "--progress", prog] + list(extra)
    err = open(out + ".err", "w")
    if isinstance(exe, PyExe):
        cmd[:1] = exe.cmd
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err, cwd=RUN,
                         env=exe.env(env_for("")) if isinstance(exe, PyExe) else env_for(""))
    err.close()
    return p, out, prog


def current_case(prog):
    try:
        b = open(prog, "rb").read()
        return b.split(b"\0", 1)[0].decode("utf8", "replace")
    except OSError:
        return ""


def explore(exe, prop, tier, deadline, tag, extra=()):
    n = 1 if extra else (os.cpu_count() or 4)
    scratch = env_for("")["HB_SCRATCH"]
    os.makedirs(scratch, exist_ok=True)
    try:
        return explore_in(exe, prop, tier, deadline, tag, extra, n)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def explore_in(exe, prop, tier, deadline, tag, extra, n):
    procs = [launch(exe, prop, tier, i, n, tag, extra) for i in range(n)]
    merged = dict(cases=0, enumerated=0, transitions=0, validated=0, dims={}, samples=[], failures=[], failureCount={},
                  undecided={})
    states = set()
    for p, out, prog in procs:
        try:
            rc = p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = "timeout"
        if rc != 0 or not os.path.exists(out):
            case = current_case(prog)
            err = ""
            try:
                err = open(out + ".err").read()[-1500:]
            except OSError:
                pass
            if rc == 64:
                raise RuntimeError("unknown property " + prop)
            if rc == "timeout":
                kind = "hang"
            elif rc == -14:
                kind = "hang"
            else:
                kind = "crash"
            merged["failures"].append({"key": kind, "case": case, "msg": "the process ended abnormally (%s) while "
                                       "running this case %s" % (rc, err)})
            merged["failureCount"][kind] = merged["failureCount"].get(kind, 0) + 1
            continue
        r = json.load(open(out))
        for k in ("cases", "transitions", "validated"):
            merged[k] += r[k]
        merged["enumerated"] = max(merged["enumerated"], r["enumerated"])
        for k, v in r["dims"].items():
            merged["dims"][k] = merged["dims"].get(k, 0) + v
        for k, v in r["failureCount"].items():
            merged["failureCount"][k] = merged["failureCount"].get(k, 0) + v
        for k, v in r.get("undecided", {}).items():
            merged["undecided"][k] = merged["undecided"].get(k, 0) + v
        merged["samples"] += r["samples"]
        merged["failures"] += r["failures"]
        b = open(out + ".states", "rb").read()
        states.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        for f in (out, prog, out + ".states", out + ".err"):
            if os.path.exists(f):
                os.unlink(f)
    merged["states"] = len(states)
    return merged


def prop_meta(prop):
    return json.load(open(os.path.join(VERIF, "checks.json")))[prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    os.makedirs(RUN, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    t0 = time.time()
    if a.setup:
        flavours = {flavour_of(m, "quick") for m in json.load(open(os.path.join(VERIF, "checks.json"))).values()}
        for fl in sorted((flavours | {"rel"}) - {"py"}):
            hbuild.build(fl, print)
        if "py" in flavours:
            hbuild.build("rel", print, py=True)
        return 0
    if a.replay:
        r = json.load(open(a.replay))
        a.prop, a.tier = r["property"], r["tier"]
    meta = prop_meta(a.prop)
    try:
        fl = flavour_of(meta, a.tier)
        log = lambda s: print(s, flush=True)
        exe = PyExe(log) if fl == "py" else hbuild.build(fl, log)
    except hbuild.BuildError as e:
        print("BUILD FAILED\n%s" % e)
        return 2
    try:
        return judge(a, meta, exe, t0)
    finally:
        if isinstance(exe, PyExe):
            exe.close()


def judge(a, meta, exe, t0):
    tag = "%s%d" % (a.tier, os.getpid())
    deadline = t0 + LIMIT.get(a.tier, 800)
    if a.replay:
        m = explore(exe, a.prop, a.tier, deadline, tag, ["--replay", r["case"]])
        for f in m["failures"]:
            print("%s [%s] %s" % (f["key"], f["case"], f["msg"]))
        print("replayed %d case(s), %d violation(s)" % (m["cases"], len(m["failures"])))
        return 1 if m["failures"] else 0
    m = explore(exe, a.prop, a.tier, deadline, tag)
    kn = known(a.prop)
    new, seen = [], {}
    for f in m["failures"]:
        k = next((k for k in kn if matches(k, f)), None)
        if k:
            seen[k["id"]] = k
        else:
            new.append(f)
    for k, v in sorted(m["undecided"].items()):
        print("UNDECIDED x%d: a library feature without stand-in here: %s" % (v, k))
    if m["cases"] == 0 and not new and not m["undecided"]:
        print("no case explored")
        return 2
    wall = round(time.time() - t0, 2)
    # one replay file per kind of violation: the shortest case of that kind
    viol = []
    for key in sorted({f["key"] for f in new}):
        f = min((f for f in new if f["key"] == key), key=lambda f: (len(f["case"]), f["case"]))
        name = "%s-%s.json" % (a.prop, hashlib.sha256((key + "|" + f["case"]).encode()).hexdigest()[:12])
        path = os.path.join(REPLAYS, name)
        json.dump(dict(property=a.prop, tier=a.tier, key=key, case=f["case"], msg=f["msg"],
                       count=m["failureCount"].get(key, 1),
                       rerun="python3 /verif/check.py --replay " + path), open(path, "w"), indent=1)
        viol.append((f, path))
    cov = dict(states=m["states"], transitions=m["transitions"], traces_validated_against_impl=m["validated"],
               executions=m["cases"], bounds=meta.get("bounds", {}).get(a.tier, meta.get("bounds", "")),
               oracle=meta.get("oracle", ""), exhaustive=True, dimensions=m["dims"],
               undecided=m["undecided"],
               known_findings=sorted(seen), new_violations=len(new),
               samples=sorted(set(m["samples"]), key=lambda s: (len(s), s))[:40])
    json.dump(dict(property=a.prop, tier=a.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1),
                   level="model_checking", coverage=cov, wall_s=wall),
              open(os.path.join(EVID, a.prop + ".json"), "w"), indent=1)
    print("%s %s: %d executions, %d states, %d transitions, %d validated, %.1f s" %
          (a.prop, a.tier, m["cases"], m["states"], m["transitions"], m["validated"], wall))
    for k in seen.values():
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    for f, path in viol:
        print("  %s (x%d) case %s: %s" % (f["key"], m["failureCount"].get(f["key"], 1), f["case"], f["msg"][:600]))
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
    return 1 if new else 0


if __name__ == "__main__":
    sys.exit(main())
