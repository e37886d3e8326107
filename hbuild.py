"""Content-addressed build of the explorer from /repo's current sources.

Every object is keyed by the content of its source, of every /repo and /verif file it includes and of the
compiler flags, so a check never runs against stale code whatever the time stamps say, and an unchanged
file is never recompiled.  Output goes to /verif/build (git-ignored)."""
import hashlib, json, os, shutil, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("HB_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SRC = os.path.join(REPO, "core", "src")
HARNESS = os.path.join(VERIF, "harness", "src")
PYSHIM = os.path.join(VERIF, "harness", "py")
PYINC = "/usr/include/python3.12"
DEFS = ["-DHYDROBRICKS_MAJOR_VERSION=0", "-DHYDROBRICKS_MINOR_VERSION=8", "-DHYDROBRICKS_PATCH_VERSION=6", "-DNOMINMAX"]
SYSINC = ["-isystem", "/usr/include/eigen3"]
PCH_HEADERS = ["Eigen/Dense", "string", "vector", "map", "unordered_map", "memory", "format", "expected", "filesystem",
               "ranges", "algorithm", "functional", "set", "sstream", "fstream", "yaml-cpp/yaml.h"]
FLAVOURS = {
    "rel": ["-O1", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS"],
    "san": ["-O1", "-g1", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined",
            "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
}
LIBS = ["-lyaml-cpp", "-lnetcdf", "-lz", "-lpthread"]


class BuildError(Exception):
    pass


_sha_cache = {}


def sha(path):
    if path not in _sha_cache:
        try:
            with open(path, "rb") as f:
                _sha_cache[path] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _sha_cache[path] = "missing"
    return _sha_cache[path]


def hstr(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def core_sources():
    out, dirs = [], []
    for root, ds, fs in os.walk(SRC):
        ds.sort()
        rel = os.path.relpath(root, SRC)
        if rel == "app" or rel.startswith("app" + os.sep):
            continue
        if any(f.endswith((".h", ".hpp", ".cpp")) for f in fs) or root == SRC:
            dirs.append(root)
        out += [os.path.join(root, f) for f in sorted(fs) if f.endswith(".cpp")]
    return out, dirs


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))


def build(flavour="rel", log=lambda s: None, py=False):
    """The explorer, or (py) the directory holding the Python extension module made from the real bindings."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(flavour, log, py)


def _build(flavour, log, py=False):
    _sha_cache.clear()
    base = os.path.join(BUILD, flavour)
    odir, idir = os.path.join(base, "obj"), os.path.join(base, "idx")
    os.makedirs(odir, exist_ok=True)
    os.makedirs(idir, exist_ok=True)
    flags = ["-std=c++23", "-w", "-fPIC"] + FLAVOURS[flavour] + DEFS
    srcs, dirs = core_sources()
    incs = []
    for d in dirs:
        incs += ["-I", d]
    # precompiled header: system headers only
    pch = os.path.join(base, "pch-%s.h" % hstr(" ".join(flags), " ".join(PCH_HEADERS)))
    if not os.path.exists(pch + ".gch"):
        with open(pch, "w") as f:
            f.write("".join("#include <%s>\n" % h for h in PCH_HEADERS))
        run(["g++"] + flags + SYSINC + ["-x", "c++-header", pch, "-o", pch + ".gch.tmp"])
        os.rename(pch + ".gch.tmp", pch + ".gch")
    hsrcs = [os.path.join(HARNESS, f) for f in sorted(os.listdir(HARNESS)) if f.endswith(".cpp")]
    fkey = hstr(" ".join(flags), " ".join(os.path.relpath(d, SRC) for d in dirs), REPO)
    jobs = [(s, ["-I", HARNESS] if s.startswith(HARNESS) else []) for s in srcs + hsrcs]
    if py:
        jobs = [(s, []) for s in srcs] + [(os.path.join(REPO, "core", "bindings", "Binding.cpp"),
                                           ["-I", PYSHIM, "-isystem", PYINC])]

    def one(job):
        s, extra = job
        name = hstr(s)
        idx = os.path.join(idir, name + ".json")
        entries = []
        if os.path.exists(idx):
            try:
                entries = json.load(open(idx))
            except Exception:
                entries = []
        for e in entries:
            if e["f"] == fkey + " ".join(extra) and os.path.exists(e["o"]) and all(sha(p) == h for p, h in e["d"].items()):
                return e["o"], False
        tmp = os.path.join(odir, name + ".tmp%d" % os.getpid())
        run(["g++"] + flags + ["-include", pch] + SYSINC + incs + extra +
            ["-MD", "-MF", tmp + ".d", "-c", s, "-o", tmp + ".o"])
        deps = open(tmp + ".d").read().replace("\\\n", " ").split(":", 1)[1].split()
        deps = {os.path.realpath(p): sha(os.path.realpath(p)) for p in deps
                if os.path.realpath(p).startswith((REPO + "/", HARNESS + "/", PYSHIM + "/"))}
        key = hstr(fkey, json.dumps(deps, sort_keys=True))
        obj = os.path.join(odir, "%s-%s.o" % (name, key))
        os.rename(tmp + ".o", obj)
        os.unlink(tmp + ".d")
        entries = [e for e in entries if e["o"] != obj][-3:] + [{"f": fkey + " ".join(extra), "d": deps, "o": obj}]
        for f in os.listdir(odir):
            if f.startswith(name + "-") and os.path.join(odir, f) not in [e["o"] for e in entries]:
                os.unlink(os.path.join(odir, f))
        json.dump(entries, open(idx + ".tmp", "w"))
        os.rename(idx + ".tmp", idx)
        return obj, True

    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        res = list(ex.map(one, jobs))
    ncomp = sum(1 for _, c in res if c)
    objs = [o for o, _ in res]
    if py:
        out = os.path.join(base, "py-%s" % hstr(*objs))
        if not os.path.exists(os.path.join(out, "_hydrobricks.so")):
            for f in os.listdir(base):
                if f.startswith("py-"):
                    shutil.rmtree(os.path.join(base, f), ignore_errors=True)
            os.makedirs(out)
            run(["g++", "-shared", "-o", os.path.join(out, "tmp.so")] + objs + LIBS)
            os.rename(os.path.join(out, "tmp.so"), os.path.join(out, "_hydrobricks.so"))
        log("built python module: %d of %d objects compiled" % (ncomp, len(objs)))
        return out
    exe = os.path.join(base, "explorer-%s" % hstr(*objs))
    if not os.path.exists(exe):
        for f in os.listdir(base):
            if f.startswith("explorer-"):
                os.unlink(os.path.join(base, f))
        ld = ["-fsanitize=address,undefined"] if flavour == "san" else []
        run(["g++", "-o", exe + ".tmp"] + objs + ld + LIBS)
        os.rename(exe + ".tmp", exe)
    log("built %s: %d of %d objects compiled" % (flavour, ncomp, len(objs)))
    return exe


if __name__ == "__main__":
    for fl in (sys.argv[1:] or ["rel"]):
        try:
            print(build("rel", print, py=True) if fl == "py" else build(fl, print))
        except BuildError as e:
            print(e)
            sys.exit(2)
