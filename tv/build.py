"""Content-addressed incremental build of the library under test.

Objects are rebuilt when the *content* of the source, of any repository header
it included, or of the command line changed -- never because of a time stamp.
Everything is compiled from the working tree of TV_REPO (default /repo)."""
import fcntl, hashlib, json, os, subprocess, sys, concurrent.futures, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TV_REPO", "/repo")
MODULES = ("api backend board compiler core encryption engine frontend global "
           "memory module runtime utils").split()
ARCHIVES = ["common", "cpu"]
DEFS = ["-DBUILDING_TENNIS", "-DTS_DISABLE_PARALLEL", "-DTS_USE_AVX", "-DTS_USE_DEBUG_API",
        "-DTS_USE_FMA", "-DTS_USE_HOOK", "-DTS_USE_OPENMP", "-DTS_USE_PROFILER", "-DTS_USE_SIMD",
        "-DVERIF_TENNIS"]
WARN = ["-w", "-std=c++11"]
VARIANTS = {
    # same code generation flags as the repository's own build
    "rel": dict(cxx="g++", defs=DEFS,
                flags=["-fPIC", "-fopenmp", "-O3", "-DNDEBUG", "-mavx", "-mavx2", "-mfma"],
                ld=["-fopenmp"]),
    # memory-safety build of the same configuration
    "asan": dict(cxx="g++", defs=DEFS,
                 flags=["-fPIC", "-fopenmp", "-O1", "-g1", "-fno-omit-frame-pointer", "-mavx", "-mavx2",
                        "-mfma", "-fsanitize=address"],
                 ld=["-fopenmp", "-fsanitize=address"]),
    # scalar configuration (no SIMD code paths)
    "scalar": dict(cxx="g++", defs=[d for d in DEFS if d not in
                                    ("-DTS_USE_AVX", "-DTS_USE_FMA", "-DTS_USE_SIMD")],
                   flags=["-fPIC", "-fopenmp", "-O2", "-DNDEBUG"], ld=["-fopenmp"]),
    # thread sanitizer, without OpenMP (libgomp is not instrumented)
    "tsan": dict(cxx="g++", defs=[d for d in DEFS if d != "-DTS_USE_OPENMP"],
                 flags=["-fPIC", "-O1", "-g1", "-mavx", "-mavx2", "-mfma", "-fsanitize=thread"],
                 ld=["-fsanitize=thread"]),
}
_h = {}


def fhash(p):
    if p not in _h:
        try:
            with open(p, "rb") as f:
                _h[p] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _h[p] = None
    return _h[p]


def rel(p):
    p = os.path.normpath(p)
    if p.startswith(REPO + "/"):
        return "R:" + p[len(REPO) + 1:]
    if p.startswith(VERIF + "/"):
        return "V:" + p[len(VERIF) + 1:]
    return p


def unrel(p):
    if p.startswith("R:"):
        return os.path.join(REPO, p[2:])
    if p.startswith("V:"):
        return os.path.join(VERIF, p[2:])
    return p


def build_root():
    b = os.environ.get("TV_BUILD")
    if b:
        return b
    if REPO == "/repo":
        return os.path.join(VERIF, "build", "repo")
    return os.path.join(VERIF, "build", hashlib.sha1(REPO.encode()).hexdigest()[:10])


def sources():
    out = []
    for m in MODULES:
        out += glob.glob(f"{REPO}/src/{m}/**/*.cpp", recursive=True)
    for a in ARCHIVES:
        out += glob.glob(f"{REPO}/src/kernels/{a}/**/*.cpp", recursive=True)
    return sorted(out)


def parse_d(path):
    txt = open(path).read().replace("\\\n", " ")
    deps = txt.split(":", 1)[1].split()
    return [d for d in deps if not d.endswith(":")]


class BuildError(Exception):
    pass


def compile_one(src, obj, cmd):
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    meta = obj + ".json"
    key = " ".join(rel(c[2:]) if c.startswith("-I") else c for c in cmd)
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if m["cmd"] == key and all(fhash(unrel(d)) == h for d, h in m["deps"].items()):
                return False
        except Exception:
            pass
    if os.path.exists(meta):
        os.unlink(meta)
    dfile = obj + ".d"
    full = cmd + ["-MMD", "-MF", dfile, "-c", src, "-o", obj]
    r = subprocess.run(full, capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("compile failed: %s\n%s" % (src, r.stderr[-4000:]))
    deps = {rel(d): fhash(os.path.normpath(d)) for d in parse_d(dfile)}
    tmp = meta + ".tmp"
    json.dump({"cmd": key, "deps": deps}, open(tmp, "w"))
    os.replace(tmp, meta)
    return True


def build(variant="rel", shims=(), jobs=None, verbose=False):
    """Build libtennis for a variant and the named shim libraries.
    Returns {'lib': path, shim_name: path,...}"""
    v = VARIANTS[variant]
    root = os.path.join(build_root(), variant)
    os.makedirs(root, exist_ok=True)
    jobs = jobs or max(2, (os.cpu_count() or 4))
    inc = [f"-I{REPO}/include", f"-I{REPO}/src"]
    base = [v["cxx"]] + v["defs"] + inc + WARN + v["flags"]
    out = {}
    with open(os.path.join(root, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        _h.clear()
        srcs = sources()
        # big translation units first
        srcs.sort(key=lambda p: -os.path.getsize(p))
        objs, futs = [], []
        with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
            for s in srcs:
                o = os.path.join(root, "obj", os.path.relpath(s, REPO) + ".o")
                objs.append(o)
                futs.append(ex.submit(compile_one, s, o, base))
            shim_objs = {}
            for s in shims:
                src = os.path.join(VERIF, "shim", s + ".cpp")
                o = os.path.join(root, "shim", s + ".o")
                shim_objs[s] = o
                futs.append(ex.submit(compile_one, src, o, base))
            err = None
            changed = False
            for f in futs:
                try:
                    changed |= f.result()
                except BuildError as e:
                    err = err or e
            if err:
                raise err
        objs.sort()
        lib = os.path.join(root, "libtennis.so")
        lk_key = hashlib.sha256("\n".join(
            rel(o) + ":" + hashlib.sha256(open(o + ".json", "rb").read()).hexdigest() for o in objs).encode()).hexdigest()
        stamp = os.path.join(root, "lib.key")
        if not (os.path.exists(lib) and os.path.exists(stamp) and open(stamp).read() == lk_key):
            tmp = lib + ".tmp"
            r = subprocess.run([v["cxx"], "-shared", "-o", tmp, "-Wl,-soname,libtennis.so"] + objs + v["ld"] + ["-lpthread", "-lm"],
                               capture_output=True, text=True)
            if r.returncode:
                raise BuildError("link failed: " + r.stderr[-4000:])
            os.replace(tmp, lib)
            open(stamp, "w").write(lk_key)
        out["lib"] = lib
        for s, o in shim_objs.items():
            so = os.path.join(root, f"lib{s}.so")
            k2 = lk_key + hashlib.sha256(open(o + ".json", "rb").read()).hexdigest()
            st = so + ".key"
            if not (os.path.exists(so) and os.path.exists(st) and open(st).read() == k2):
                r = subprocess.run([v["cxx"], "-shared", "-o", so + ".tmp", o, "-L" + root, "-ltennis", "-Wl,-rpath,$ORIGIN"] + v["ld"],
                                   capture_output=True, text=True)
                if r.returncode:
                    raise BuildError("link failed: " + r.stderr[-4000:])
                os.replace(so + ".tmp", so)
                open(st, "w").write(k2)
            out[s] = so
    return out


if __name__ == "__main__":
    import time
    t = time.time()
    for a in sys.argv[1:] or ["rel"]:
        v, *sh = a.split(":")
        print(build(v, sh), "%.1fs" % (time.time() - t))
