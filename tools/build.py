"""Content-hash incremental build of /repo's sources and the drivers of /verif.

Every object is keyed by a digest of (compiler command, contents of the source
and of every header it read last time), so the result never depends on file
times: a check run in a fresh copy of the tree recompiles exactly what differs
from what setup built.
"""
import hashlib, os, re, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, "build")
CXX = "g++-14"
FLAGS = ["-std=c++23", "-O1", "-fno-strict-aliasing", "-w", "-I" + REPO, "-I" + os.path.join(VERIF, "shim"),
         "-I" + os.path.join(VERIF, "drivers")]
LINK = ["-lstdc++exp", "-pthread"]

_hash_cache = {}
_hash_lock = threading.Lock()


def fhash(path):
    with _hash_lock:
        if path in _hash_cache:
            return _hash_cache[path]
    try:
        with open(path, "rb") as f:
            h = hashlib.sha1(f.read()).hexdigest()
    except OSError:
        h = "missing"
    with _hash_lock:
        _hash_cache[path] = h
    return h


def lib_sources():
    """The sources of the solver library, as /repo's own build lists them."""
    text = open(os.path.join(REPO, "gcs/CMakeLists.txt")).read()
    m = re.search(r"add_library\(\s*glasgow_constraint_solver(.*?)\)", text, re.S)
    srcs = []
    for w in m.group(1).split():
        if w.endswith(".cc"):
            srcs.append("gcs/" + w)
    return srcs


def obj_name(src, extra):
    tag = "" if not extra else "-" + hashlib.sha1(" ".join(extra).encode()).hexdigest()[:6]
    return os.path.join(OUT, "obj", src.strip("/").replace("/", "__") + tag + ".o")


def dep_digest(cmd, deps):
    h = hashlib.sha1(" ".join(cmd).encode())
    for d in deps:
        h.update(d.encode())
        h.update(fhash(d).encode())
    return h.hexdigest()


def parse_deps(path):
    text = open(path).read().replace("\\\n", " ")
    text = text.split(":", 1)[1]
    deps = [d.replace("\\ ", " ") for d in re.split(r"(?<!\\)\s+", text.strip()) if d]
    # system headers do not change between setup and check
    return sorted(os.path.normpath(d) for d in deps if d.startswith(REPO) or d.startswith(VERIF))


def compile_one(src, extra=()):
    """src: absolute path. Returns (object path, error text or None, compiled?)."""
    extra = list(extra)
    obj = obj_name(src, extra)
    cmd = [CXX] + FLAGS + extra + ["-c", src]
    keyf = obj + ".key"
    depf = obj + ".deps"
    if os.path.exists(obj) and os.path.exists(keyf) and os.path.exists(depf):
        deps = open(depf).read().split("\n")
        if open(keyf).read() == dep_digest(cmd, deps):
            return obj, None, False
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + ".tmp"
    r = subprocess.run(cmd + ["-MD", "-MF", tmp + ".d", "-o", tmp], capture_output=True, text=True)
    if r.returncode != 0:
        return obj, r.stderr[-4000:], True
    deps = parse_deps(tmp + ".d")
    os.replace(tmp, obj)
    os.unlink(tmp + ".d")
    with open(depf, "w") as f:
        f.write("\n".join(deps))
    with open(keyf, "w") as f:
        f.write(dep_digest(cmd, deps))
    return obj, None, True


class BuildError(Exception):
    pass


def build(targets, jobs=None, verbose=True):
    """targets: {driver name: dict(sources=[...repo-relative...] or 'lib', extra=[flags])}.
    Returns {name: binary path}."""
    jobs = jobs or (os.cpu_count() or 4)
    todo = {}
    plan = {}
    for name, t in targets.items():
        srcs = lib_sources() if t["sources"] == "lib" else t["sources"]
        paths = [os.path.join(REPO, s) for s in srcs] + [os.path.join(VERIF, "drivers", name + ".cc")]
        extra = t.get("extra", [])
        plan[name] = []
        for p in paths:
            if not os.path.exists(p):
                raise BuildError("no such source: " + p)
            key = obj_name(p, extra)
            todo[key] = (p, extra)
            plan[name].append(key)
    compiled = 0
    # biggest first keeps the tail short
    order = sorted(todo.values(), key=lambda x: -os.path.getsize(x[0]))
    with ThreadPoolExecutor(jobs) as ex:
        for obj, err, did in ex.map(lambda a: compile_one(*a), order):
            if err:
                raise BuildError(err)
            compiled += did
    bins = {}
    os.makedirs(os.path.join(OUT, "bin"), exist_ok=True)

    def link(name):
        out = os.path.join(OUT, "bin", name)
        keyf = out + ".key"
        h = hashlib.sha1()
        for o in plan[name]:
            h.update(o.encode())
            h.update(open(o + ".key").read().encode())
        k = h.hexdigest()
        if os.path.exists(out) and os.path.exists(keyf) and open(keyf).read() == k:
            return name, out, None
        # objects of the library go in directly: initialisation order and
        # registrations are then the same as in a shared-nothing build
        r = subprocess.run([CXX] + targets[name].get("extra", []) + ["-o", out + ".tmp"] + plan[name] + LINK, capture_output=True, text=True)
        if r.returncode != 0:
            return name, out, r.stderr[-4000:]
        os.replace(out + ".tmp", out)
        with open(keyf, "w") as f:
            f.write(k)
        return name, out, None

    retry = {}
    with ThreadPoolExecutor(4) as ex:
        for name, out, err in ex.map(link, list(targets)):
            if err and targets[name]["sources"] != "lib":
                # code may have moved to a file the list does not name
                retry[name] = dict(targets[name], sources="lib")
            elif err:
                raise BuildError(err)
            else:
                bins[name] = out
    if retry:
        bins.update(build(retry, jobs, verbose))
    if verbose:
        print(f"build: {len(todo)} objects, {compiled} compiled", flush=True)
    return bins
