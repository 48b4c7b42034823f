"""Check driver: builds, explores in parallel workers, confirms, shrinks, reports."""
import hashlib, importlib, json, os, random, select, shutil, signal, subprocess, sys, tempfile, time
from . import build, gen

ROOT = build.VERIF
PY = sys.executable
KNOWN = os.path.join(ROOT, "known_findings.txt")


def load_known(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith("known: "):
                k = json.loads(line[7:])
                if k["property"] == prop:
                    out.append(k)
    return out


class Worker:
    def __init__(self, prop, libs, variant, scratch, tag):
        self.err = os.path.join(scratch, f"w{tag}.err")
        env = dict(os.environ, OMP_WAIT_POLICY="passive", GOMP_SPINCOUNT="0", PYTHONHASHSEED="0",
                   OPENBLAS_NUM_THREADS="1", TV_SCRATCH=os.path.join(scratch, f"d{tag}"), TV_VARIANT=variant)
        os.makedirs(env["TV_SCRATCH"], exist_ok=True)
        if "count" in libs and variant not in ("asan", "tsan"):
            env["LD_PRELOAD"] = libs["count"]
        if variant == "asan":
            lib = subprocess.run(["g++", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
            cpp = subprocess.run(["g++", "-print-file-name=libstdc++.so.6"], capture_output=True, text=True).stdout.strip()
            env["LD_PRELOAD"] = os.path.realpath(lib) + ":" + os.path.realpath(cpp)
            env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:"
                                   "handle_segv=1:handle_abort=1:detect_odr_violation=0:symbolize=1:"
                                   "max_allocation_size_mb=2048:malloc_context_size=8:quarantine_size_mb=32")
            env["PYTHONMALLOC"] = "malloc"
        if variant == "tsan":
            lib = subprocess.run(["g++", "-print-file-name=libtsan.so"], capture_output=True, text=True).stdout.strip()
            env["LD_PRELOAD"] = os.path.realpath(lib)
            env["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:history_size=4:report_signal_unsafe=0"
        self.p = subprocess.Popen([PY, "-m", "tv.worker", prop, json.dumps(libs), self.err], cwd=ROOT, env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  preexec_fn=_limits(variant))
        self.buf = b""
        self.cur = None
        self.t = time.time()

    def send(self, o):
        self.p.stdin.write((json.dumps(o) + "\n").encode())
        self.p.stdin.flush()

    def lines(self, timeout):
        """yield available lines within timeout; raises EOFError on death"""
        r, _, _ = select.select([self.p.stdout], [], [], timeout)
        if not r:
            return []
        d = os.read(self.p.stdout.fileno(), 1 << 20)
        if not d:
            raise EOFError
        self.buf += d
        *ls, self.buf = self.buf.split(b"\n")
        return [l.decode() for l in ls]

    def kill(self):
        try:
            self.p.kill()
        except OSError:
            pass
        self.p.wait()

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(5)
        except subprocess.TimeoutExpired:
            self.kill()

    def why(self):
        rc = self.p.wait()
        msg = "process ended with " + (f"signal {-rc}" if rc < 0 else f"exit code {rc}")
        try:
            txt = open(self.err, "rb").read()[-400000:].decode("latin1")
        except OSError:
            txt = ""
        for key in ("ERROR: AddressSanitizer", "WARNING: ThreadSanitizer", "terminate called"):
            if key in txt:
                msg += ": " + txt[txt.rindex(key):][:1500]
                break
        return msg


def _limits(variant):
    def f():
        import resource
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if variant not in ("asan", "tsan"):
            resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
    return f


class Exec:
    """run single cases in a (restartable) worker"""

    def __init__(self, prop, libs, variant, scratch, case_timeout):
        self.a = (prop, libs, variant, scratch)
        self.w = None
        self.n = 0
        self.timeout = case_timeout

    def fresh(self):
        if self.w:
            self.w.kill()
        self.n += 1
        self.w = Worker(*self.a, tag=f"x{self.n}")
        t = time.time() + 60
        while time.time() < t:
            if "READY" in self.w.lines(1):
                return
        raise RuntimeError("worker did not start")

    def run(self, target, choices=None, seed=None, fresh=False):
        if fresh or not self.w or self.w.p.poll() is not None:
            self.fresh()
        cmd = {"c": "one", "target": target}
        if choices is not None:
            cmd["choices"] = choices
        else:
            cmd["seed"] = seed
        self.w.send(cmd)
        t = time.time() + self.timeout
        try:
            while True:
                for l in self.w.lines(0.5):
                    if l.startswith("R "):
                        return json.loads(l[2:])
                if time.time() > t:
                    self.w.kill()
                    return {"ok": False, "crash": True, "msg": f"case did not finish within {self.timeout} s", "sig": None,
                            "choices": choices or self.logged()}
        except EOFError:
            return {"ok": False, "crash": True, "msg": self.w.why(), "sig": None,
                    "choices": choices or self.logged()}

    def logged(self):
        try:
            return [int(x) for x in open(self.w.err + ".choices").read().split()]
        except OSError:
            return None

    def close(self):
        if self.w:
            self.w.kill()


def case_list(mod, tier, seed, n):
    """weighted round robin over targets, each case with its own derived seed"""
    w = getattr(mod, "WEIGHTS", {})
    order = []
    for t in mod.TARGETS:
        order += [t] * w.get(t, 1)
    random.Random(12345).shuffle(order)
    out = []
    for i in range(n):
        t = order[i % len(order)]
        s = int.from_bytes(hashlib.sha256(f"{seed}/{mod.ID}/{t}/{i}".encode()).digest()[:8], "big")
        out.append((i, t, s))
    return out


def emit(line):
    sys.stdout.write(line + "\n")
    sys.stdout.flush()


def check(prop, tier, seed, jobs=None, cases=None, keep_going=False, variant=None, only=None):
    t0 = time.time()
    mod = importlib.import_module("props." + prop)
    variants = [variant] if variant else list(getattr(mod, "VARIANTS", ["rel"]))
    known = load_known(mod.ID)
    ksigs = {k["sig"] for k in known}
    jobs = jobs or int(os.environ.get("TV_JOBS", "0")) or max(2, (os.cpu_count() or 4))
    cap = getattr(mod, "CAP", {"quick": 200, "thorough": 660})[tier]
    case_timeout = float(os.environ.get("TV_CASE_TIMEOUT") or getattr(mod, "CASE_TIMEOUT", 60))
    scratch = tempfile.mkdtemp(prefix=f"tv-{prop}-")
    ev = {"evaluations": 0, "labels": {}, "nt": set(), "samples": [], "disc": 0, "known": {}, "skipped": 0}
    violations = []
    notes = []
    try:
        for vi, var in enumerate(variants):
            libs = build.build(var, getattr(mod, "SHIMS", ()))
            n = cases or getattr(mod, "CASES")[tier]
            if isinstance(n, dict):
                n = n[var]
            if only:
                saved = mod.TARGETS
                mod.TARGETS = {k: v for k, v in saved.items() if k in only}
            lst = case_list(mod, tier, f"{seed}/{var}" if vi else seed, n)
            if only:
                mod.TARGETS = saved
            # known findings: demonstrate each one that applies to this variant
            ex = Exec(mod.ID, libs, var, scratch, case_timeout)
            try:
                for k in known:
                    if k.get("variant", "rel") != var or not k.get("replay"):
                        continue
                    r = ex.run(k["replay"]["target"], choices=k["replay"]["choices"], fresh=True)
                    if not r["ok"] and (r.get("sig") == k["sig"] or (r.get("crash") and k.get("crash"))):
                        emit(f"KNOWN-FINDING: property={mod.ID} {k['what']}")
                cand = explore(mod, libs, var, scratch, lst, jobs, ksigs, ev, t0, cap, case_timeout, keep_going,
                               notes)
                if keep_going:
                    cand = dedupe(cand)
                for c in cand:
                    if time.time() - t0 > cap + 330:
                        notes.append("no time left to confirm more candidates")
                        break
                    v = confirm(mod, libs, var, ex, c, lst, ksigs, notes, jobs)
                    if v:
                        violations.append(v)
                        emit(f"VIOLATION property={mod.ID} replay={v['replay']}")
                        emit("  " + v["msg"].replace("\n", "\n  ")[:1500])
                        if not keep_going:
                            break
            finally:
                ex.close()
            if violations and not keep_going:
                break
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    write_evidence(mod, tier, seed, ev, violations, time.time() - t0, notes, variants)
    emit(f"{mod.ID} {tier} seed={seed}: {ev['evaluations']} cases, {len(ev['nt'])} distinct non-trivial, "
         f"{len(violations)} violation(s), {time.time() - t0:.1f} s" + ("; " + "; ".join(notes) if notes else ""))
    return 1 if violations else 0


def dedupe(cand):
    """development aid (--keep-going): one candidate per target and message pattern"""
    import re
    seen = {}
    for c in cand:
        m = c["msg"]
        while re.search(r"\[[^\[\]]+\]|\([^()]+\)", m):
            m = re.sub(r"\[[^\[\]]+\]", "[]", re.sub(r"\([^()]+\)", "()", m))
        k = (c["target"], re.sub(r"\w+\[\]", "T", re.sub(r"[-\d.]+", "#", m))[:90])
        seen.setdefault(k, [c, 0])[1] += 1
    out = []
    for (t, k), (c, n) in seen.items():
        emit(f"  candidate class x{n}: {t}: {k}")
        out.append(c)
    return out[:25]


def explore(mod, libs, var, scratch, lst, jobs, ksigs, ev, t0, cap, case_timeout, keep_going, notes):
    CH = max(16, min(400, len(lst) // (jobs * 6) or 16))
    chunks = [lst[i:i + CH] for i in range(0, len(lst), CH)]
    chunks.reverse()
    by_i = {c[0]: c for c in lst}
    workers = {}
    tagc = 0
    cand = []
    done = 0
    tstart = time.time()
    deaths = 0

    def spawn():
        nonlocal tagc
        tagc += 1
        w = Worker(mod.ID, libs, var, scratch, f"{var}{tagc}")
        w.ready = False
        w.chunk = None
        w.hist = []
        workers[w.p.stdout.fileno()] = w

    def feed(w):
        if chunks and not (cand and not keep_going) and time.time() - tstart < cap:
            w.chunk = chunks.pop()
            w.hist += [c[0] for c in w.chunk]
            w.cur = None
            w.t = time.time()
            w.send({"c": "batch", "cases": w.chunk, "known": sorted(ksigs)})
        else:
            w.chunk = None
            w.close()
            workers.pop(w.p.stdout.fileno(), None)

    for _ in range(min(jobs, len(chunks))):
        spawn()
    while workers:
        r, _, _ = select.select(list(workers), [], [], 0.5)
        now = time.time()
        for fd in r:
            w = workers.get(fd)
            if not w:
                continue
            try:
                ls = w.lines(0)
            except EOFError:
                why = w.why()
                workers.pop(fd, None)
                deaths += 1
                if w.cur is None:
                    if not w.ready:
                        raise RuntimeError("worker failed to start: " + why + open(w.err, errors="replace").read()[-2000:])
                    continue
                c = by_i[w.cur]
                cand.append({"i": c[0], "target": c[1], "seed": c[2], "crash": True, "msg": why,
                             "hist": list(w.hist)})
                # carry on after the crashing case
                if w.chunk and keep_going:
                    k = [x[0] for x in w.chunk].index(w.cur)
                    if w.chunk[k + 1:]:
                        chunks.append(w.chunk[k + 1:])
                    if deaths < 200:
                        spawn()
                continue
            for l in ls:
                if l.startswith("S "):
                    w.cur, w.t = int(l[2:]), now
                elif l.startswith("A "):
                    a = json.loads(l[2:])
                    ev["evaluations"] += a["n"]
                    ev["disc"] += a["disc"]
                    for k, v in a["labels"].items():
                        ev["labels"][k] = ev["labels"].get(k, 0) + v
                    for k, v in a["known"].items():
                        ev["known"][k] = ev["known"].get(k, 0) + v
                    ev["nt"].update(a["nt"])
                    ev["samples"] += a["samples"]
                elif l.startswith("V "):
                    v = json.loads(l[2:])
                    v["seed"] = by_i[v["i"]][2]
                    v["hist"] = list(w.hist)
                    cand.append(v)
                elif l == "READY":
                    w.ready = True
                    feed(w)
                elif l == "D":
                    feed(w)
        for fd, w in list(workers.items()):
            if w.ready and w.chunk and w.cur is not None and now - w.t > case_timeout:
                w.kill()
                workers.pop(fd, None)
                c = by_i[w.cur]
                cand.append({"i": c[0], "target": c[1], "seed": c[2], "crash": True, "hist": list(w.hist),
                             "msg": f"case did not finish within {case_timeout} s"})
                if keep_going:
                    k = [x[0] for x in w.chunk].index(w.cur)
                    if w.chunk[k + 1:]:
                        chunks.append(w.chunk[k + 1:])
                    spawn()
            if cand and not keep_going and w.chunk is not None and fd in workers:
                # finish early: other workers are not needed any more
                w.kill()
                workers.pop(fd, None)
    left = sum(len(c) for c in chunks)
    if left and not cand:
        notes.append(f"{var}: time cap reached, {left} of {len(lst)} planned cases not run")
    cand.sort(key=lambda c: c["i"])
    return cand


def confirm(mod, libs, var, ex, c, lst, ksigs, notes, jobs):
    """replay 3x in fresh processes, shrink, write the replay file"""
    target = c["target"]
    choices = c.get("choices")
    seed = c["seed"]
    rs = [ex.run(target, choices=choices, seed=seed, fresh=True) for _ in range(3)]
    bad = [r for r in rs if not r["ok"] and r.get("sig") not in ksigs]
    if len(bad) < 3:
        # maybe it depends on the cases executed before it in the same process
        v = confirm_history(mod, var, ex, c, lst, ksigs)
        if v:
            return v
        notes.append(f"candidate {target}#{c['i']} reproduced {len(bad)}/3 times, not reported: {c['msg'][:200]}")
        return None
    msg = bad[0]["msg"]
    best = choices
    if best is None:
        best = bad[0].get("choices")
    if best is not None:
        tend = time.time() + min(getattr(mod, "SHRINK_S", 60), int(os.environ.get("TV_SHRINK_S", "999")))
        state = {"msg": msg, "n": 0}

        def test(ch):
            r = ex.run(target, choices=ch)
            state["n"] += 1
            if not r["ok"] and r.get("sig") not in ksigs and not (
                    r["msg"].startswith("unexpected") and not msg.startswith("unexpected")):
                state["msg"] = r["msg"]
                return True
            return False
        old = ex.timeout
        if "did not finish" in msg:
            ex.timeout = min(old, 20)
        if test(best):
            best = gen.shrink(best, test, lambda: time.time() < tend and state["n"] < 400)
        ex.timeout = old
        rs = [ex.run(target, choices=best, fresh=True) for _ in range(3)]
        if not all(not r["ok"] for r in rs):
            best = choices
        else:
            msg = rs[0]["msg"]
    rp = {"property": mod.ID, "variant": var, "target": target, "seed": seed, "msg": msg}
    if best is not None:
        rp["choices"] = best
    return {"msg": f"[{target}] " + msg, "replay": save_replay(mod, rp), "target": target}


def confirm_history(mod, var, ex, c, lst, ksigs):
    hist = c.get("hist") or []
    if c["i"] in hist:
        hist = hist[:hist.index(c["i"]) + 1]
    by_i = {x[0]: x for x in lst}

    def run_hist(h):
        ex.fresh()
        for i in h:
            _, t, s = by_i[i]
            r = ex.run(t, seed=s)
            if not r["ok"] and r.get("sig") not in ksigs:
                return i, r
        return None
    h = hist[-600:]
    if "did not finish" in c["msg"]:
        h = h[-60:]
    for _ in range(3):
        r = run_hist(h)
        if not r:
            return None
    # shrink the history
    tend = time.time() + 60
    k = len(h) // 2
    while k >= 1 and time.time() < tend:
        i = 0
        while i + k < len(h) and time.time() < tend:
            h2 = h[:i] + h[i + k:]
            if run_hist(h2):
                h = h2
            else:
                i += k
        k //= 2
    r = None
    for _ in range(3):
        r = run_hist(h)
        if not r:
            return None
    rp = {"property": mod.ID, "variant": var, "history": [[by_i[i][1], by_i[i][2]] for i in h],
          "target": by_i[r[0]][1], "msg": r[1]["msg"]}
    return {"msg": f"[{rp['target']}] (after {len(h) - 1} earlier cases in the same process) " + rp["msg"],
            "replay": save_replay(mod, rp), "target": rp["target"]}


def save_replay(mod, rp):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    s = json.dumps(rp, indent=1, default=str)
    p = os.path.join(d, f"{mod.ID}-{hashlib.sha1(s.encode()).hexdigest()[:10]}.json")
    open(p, "w").write(s)
    return p


def replay(path):
    rp = json.load(open(path))
    mod = importlib.import_module("props." + rp["property"])
    libs = build.build(rp["variant"], getattr(mod, "SHIMS", ()))
    scratch = tempfile.mkdtemp(prefix="tv-replay-")
    ex = Exec(mod.ID, libs, rp["variant"], scratch, getattr(mod, "CASE_TIMEOUT", 60))
    try:
        if "history" in rp:
            ex.fresh()
            r = {"ok": True}
            for t, s in rp["history"]:
                r = ex.run(t, seed=s)
                if not r["ok"]:
                    break
        else:
            r = ex.run(rp["target"], choices=rp.get("choices"), seed=rp.get("seed"), fresh=True)
    finally:
        ex.close()
        shutil.rmtree(scratch, ignore_errors=True)
    if r["ok"]:
        emit(f"replay passes: {r.get('info')}")
        return 0
    emit(f"VIOLATION property={mod.ID} replay={path}")
    emit("  " + r["msg"])
    if r.get("tb"):
        emit(r["tb"])
    return 1


def write_evidence(mod, tier, seed, ev, violations, wall, notes, variants):
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    samples = ev["samples"]
    if len(samples) > 12:
        step = len(samples) / 12
        samples = [samples[int(i * step)] for i in range(12)]
    o = {
        "property": mod.ID, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev["evaluations"],
            "distinct_nontrivial": len(ev["nt"]),
            "rule": mod.RULE,
            "samples": samples,
        },
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    if violations:
        o["coverage"]["violating"] = [{"replay": v["replay"], "message": v["msg"][:1500]} for v in violations]
    extra = {"class_counts": dict(sorted(ev["labels"].items())), "discarded": ev["disc"],
             "known_finding_hits": ev["known"], "notes": notes, "variants": variants}
    o["coverage"].update(extra)
    tmp = os.path.join(d, mod.ID + ".json.tmp")
    json.dump(o, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(d, mod.ID + ".json"))
