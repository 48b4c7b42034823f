"""Running out of memory is an error of the call that needed it, and nothing else."""
import ctypes as C
import importlib
import random
import numpy as np
from tv import fmt, ops, api, graphgen, shim
from tv.gen import Violation, Discard
from tv.api import ApiError
from props import P24, P28

ID = "P30"
RULE = ("the allocator of tensor memory refuses the k-th request (1 to 12, sometimes all after it, sometimes only large ones) during: the first run of a workbench holding one "
        "operator drawn by the checks of P09 to P22; loading, compiling, feeding, running, hooking, cloning and reading random graphs, in histories of up to 20 steps; every call of the C API; "
        "non-trivial = at least one refused request; distinct by the whole case")
CASES = {"quick": 10000, "thorough": 250000}
VARIANTS = ("rel", "asan")
SHIMS = ("mem", "mod", "count")
CASE_TIMEOUT = 40
FAMILIES = ["P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18", "P20", "P21", "P22"]


def setup(libs):
    env = P24.setup(libs)
    env.raw = env.session
    env.mods = {k: importlib.import_module("props." + k) for k in FAMILIES}
    P28.setup.__globals__  # the calls P28 adds
    for k, s in P28.EXTRA.items():
        f = getattr(env.t.dll, k)
        f.restype, f.argtypes = s[0], list(s[1:])
        setattr(env.t, k[3:], f)
    return env


class Armed:
    """`with Armed(env, ...) as a:` requests inside are refused as drawn"""

    def __init__(self, src, env, last=12):
        self.mm = env.mm
        self.k = src.int(1, last) if last < 4 else src.weighted([(6, src.int(1, 3)), (3, src.int(1, last))])
        self.more = src.weighted([(5, 0), (1, 1 << 30)])
        self.least = src.weighted([(6, 1), (1, 64), (1, 1000)])

    def __enter__(self):
        self.mm.mm_arm(self.k, self.more, self.least)
        return self

    def __exit__(self, *a):
        self.fired = self.mm.mm_fired()
        self.mm.mm_arm(0, 0, 0)

    def __str__(self):
        return f"request {self.k}{'+' if self.more else ''}{f' of {self.least}+ bytes' if self.least > 1 else ''} refused"


class Sess(ops.Session):
    """the first run has to survive a refused request"""

    def __init__(self, env, op, n, params, consts, options, threads):
        super().__init__(env.inner, op, n, params, consts, options, threads)
        self.env = env

    def __call__(self, *xs):
        e, t = self.env, self.t
        src = e.src
        if src.bool(0.3) and e.fired:
            return super().__call__(*xs)
        hs = [t.pack(x) if isinstance(x, (list, tuple)) else t.new(x) for x in xs]
        res = None
        what = f"{self.op} on {[ops.ndesc(x) for x in xs]}"
        try:
            for i, h in enumerate(hs):
                t.set_input(self.wb, i, h)
            a = Armed(src, e)
            with a:
                ok = t.Workbench_run(self.wb)
                msg = t.err()
            e.fired += a.fired
            e.what.append(f"{self.op} {a}: {a.fired}")
            if not ok and not msg:
                raise Violation(f"{what}, {a}: failed without a message")
            if ok:
                res = t.output(self.wb, 0)
            bad_in = not ok and not a.fired
        finally:
            for h in hs:
                t.free_Tensor(h)
        try:
            out = super().__call__(*xs)
        except ApiError:
            if res is not None:
                raise Violation(f"{what}, {a}: ran when {a.fired} requests were refused, but not after that")
            raise
        if bad_in:
            raise Violation(f"{what}: failed before ({msg[:200]}) and ran after that")
        if res is not None and not self.same(res, out):
            raise Violation(f"{what}, {a}: {a.fired} refused requests changed the result {res!r}, it is {out!r}"[:700])
        return out

    @staticmethod
    def same(a, b):
        if a == b:
            return True
        if len(a) != len(b) or any(p.shape != q.shape or p.dtype != q.dtype for p, q in zip(a, b)):
            return False
        return all(np.allclose(p.np().astype(float), q.np().astype(float), rtol=1e-4, atol=1e-5, equal_nan=True) for p, q in zip(a, b))


def t_ops(src, env):
    fam = env.mods[src.choice(FAMILIES)]
    names = [k for k in fam.TARGETS if not (fam.ID == "P22" and k == "half")]
    w = getattr(fam, "WEIGHTS", {})
    name = src.weighted([(w.get(k, 1), k) for k in names])

    class E:
        pass
    e = E()
    e.__dict__.update({k: v for k, v in env.__dict__.items() if k != "session"})
    e.inner, e.src, e.fired, e.what = env, src, 0, []
    e.session = lambda op, n, params=None, consts=None, options=None, threads=None: Sess(e, op, n, params or {}, consts or {}, options, threads)
    b0, n0 = env.mm.mm_bytes(), env.mm.mm_blocks()
    info = fam.TARGETS[name](src, e)
    return {"desc": f"{e.what[:4]} {info.get('desc')}"[:600], "nt": e.fired > 0, "labels": [fam.ID] + (["refused"] if e.fired else [])}


def t_graph(src, env):
    t, mm = env.t, env.mm
    g = graphgen.gen(src, max_ops=src.choice([3, 6, 12]), heavy=src.bool(0.4), inexact=False, weird_outputs=src.bool(0.3))
    xs = [v.val for v in g.inputs]
    ys = [graphgen.data(src, v.shape) for v in xs]
    want = {id(xs): g.eval(xs), id(ys): g.eval(ys)}
    data = g.encode()
    b0, n0 = mm.mm_bytes(), mm.mm_blocks()
    fired, log = 0, []
    mod = prog = None
    wbs, kept = [], []          # [handle, inputs it has or None, outputs valid for]

    def bad(m):
        raise Violation(f"{'; '.join(log)} on {g.describe()}: {m}"[:1500])

    def arm(f, what, must=False):
        """f() under refusals: a result, or None after a proper error"""
        nonlocal fired
        a = Armed(src, env)
        with a:
            r = f()
            msg = t.err()
        fired += a.fired
        log.append(f"{what} {a}: {'ok' if r else 'failed'} ({a.fired})")
        if not r and not a.fired:
            bad(f"failed: {msg[:200]}")
        if not r and not msg:
            bad("failed without a message")
        return r

    def check(wb, set_, what):
        for i, (v, w) in enumerate(zip(g.outputs, want[id(set_)])):
            graphgen.check_out(t.output(wb, i), w, v.exact, f"{what} output {i} after {'; '.join(log)} on {g.describe()}"[:1200])

    try:
        def load():
            s = api.Stream(data)
            return t.Module_LoadFromStream(C.c_void_p(1), s.r, 0)
        mod = arm(load, "load") or t.module(data)
        for _ in range(src.int(2, 20)):
            k = src.weighted([(3, "bench"), (2, "program"), (6, "input"), (8, "run"), (2, "hook"), (4, "output"), (2, "clone"), (1, "setup"), (1, "free"), (1, "field")])
            b = src.choice(wbs) if wbs else None
            if k == "bench" or b is None:
                if len(wbs) < 3:
                    h = arm(lambda: t.Workbench_Load(mod, t.cpup), "bench")
                    if h:
                        wbs.append([h, None, None])
            elif k == "program":
                if not prog:
                    prog = arm(lambda: t.Workbench_compile(b[0], mod), "compile")
            elif k == "setup" and prog:
                if arm(lambda: t.Workbench_setup(b[0], prog), "setup"):
                    b[1] = b[2] = None
                # a failed setup leaves what was there
            elif k == "input":
                s = src.choice([xs, ys])
                ok = True
                for i, x in enumerate(s):
                    h = arm(lambda: t.new(x) if False else t.new_Tensor(C.cast((api.I32 * max(1, x.ndim))(*x.shape), api.P), x.ndim, fmt.ID[x.dtype], x.ctypes.data), "new")
                    ok = h and arm(lambda: t.Workbench_input(b[0], i, h), "input") and ok
                    if h:
                        t.free_Tensor(h)
                b[1] = s if ok else (s if not s else "some")
            elif k in ("run", "hook"):
                if b[1] is None or b[1] == "some":
                    continue
                names = [v.name for v in g.outputs if getattr(v, "name", None)][:1]
                r = arm(lambda: t.Workbench_run(b[0]), "run")
                if r:
                    b[2] = b[1]
                    check(b[0], b[2], "run")
                else:
                    b[2] = None
                    if src.bool():          # what was refused now is there
                        t.run(b[0])
                        b[2] = b[1]
                        check(b[0], b[2], "second run")
            elif k == "output" and b[2] is not None and g.outputs:
                i = src.raw(len(g.outputs))
                h = t.new_Tensor(None, 0, fmt.INT8, None)
                if arm(lambda: t.Workbench_output(b[0], i, h), "output"):
                    graphgen.check_out(t.get(h), want[id(b[2])][i], g.outputs[i].exact, f"output {i} after {'; '.join(log)} on {g.describe()}")
                    kept.append((h, want[id(b[2])][i], g.outputs[i].exact))
                else:
                    t.free_Tensor(h)
            elif k == "field" and kept:
                h, w, ex = src.choice(kept)
                c = arm(lambda: t.Tensor_clone(h), "clone tensor")
                if c:
                    graphgen.check_out(t.take(c), w, ex, f"a clone after {'; '.join(log)}")
            elif k == "clone" and len(wbs) < 3:
                h = arm(lambda: t.Workbench_clone(b[0]), "clone")
                if h:
                    wbs.append([h, None, None])
            elif k == "free":
                t.free_Workbench(b[0])
                wbs.remove(b)
        for h, w, ex in kept:
            graphgen.check_out(t.get(h), w, ex, f"an output kept over {'; '.join(log)}"[:1200])
        for b in wbs:
            for s in (ys, xs):
                for i, x in enumerate(s):
                    t.set_input(b[0], i, x)
                t.run(b[0])
                check(b[0], s, "at the end")
    finally:
        mm.mm_arm(0, 0, 0)
        for h, _, _ in kept:
            t.free_Tensor(h)
        for b in wbs:
            t.free_Workbench(b[0])
        t.free_Program(prog)
        t.free_Module(mod)
    if (mm.mm_bytes(), mm.mm_blocks()) != (b0, n0):
        bad(f"{mm.mm_blocks() - n0} blocks of {mm.mm_bytes() - b0} bytes stay allocated after everything was freed")
    return {"desc": f"{'; '.join(log)} on {g.describe()}"[:700], "nt": fired > 0, "labels": (["refused"] if fired else [])}


def t_calls(src, env):
    t, mm = env.t, env.mm
    b0, n0 = mm.mm_bytes(), mm.mm_blocks()
    w = P28.World(src, env)
    log, fired = [], 0
    has_input = ran = False
    steps = 0
    try:
        for _ in range(src.int(1, 10)):
            g = P28.good(w)
            name = src.choice(list(g))
            args = g[name][0]
            if name.startswith("Workbench_bind"):
                continue
            if name in ("Workbench_run", "Workbench_run_hook") and not has_input:
                t.set_input(w.wb, 0, w.x)
                has_input = True
            if name in ("Workbench_output", "Workbench_output_by_name") and not ran:
                continue
            if name.startswith("ImageFilter") and name not in ("ImageFilter_compile", "ImageFilter_module"):
                if not src.bool(0.3):
                    t.ImageFilter_clear(w.flt)
                    steps = 0
                if name == "ImageFilter_run" and steps:
                    continue        # the steps may not suit the image
            a = Armed(src, env, 3 if not name.startswith(("ImageFilter", "Workbench")) else 12)
            with a:
                r = getattr(t, name)(*args)
                msg = t.err()
            fired += a.fired
            log.append(f"{name}({a}: {a.fired})")
            if name == "ImageFilter_clear" and not r:
                pass                    # as before
            elif name.startswith("ImageFilter_") and r:
                steps = 0 if name == "ImageFilter_clear" else steps + (name not in ("ImageFilter_compile", "ImageFilter_module", "ImageFilter_run"))
            if r or name == "Tensor_packed":
                if msg:
                    raise Violation(f"{log[-1]} left the message {msg!r} after {log}")
                P28.release(t, name, r)
                has_input |= name in ("Workbench_input", "Workbench_input_by_name")
                ran |= name == "Workbench_run"
                if name == "Workbench_setup":
                    has_input = ran = False
            else:
                if not msg:
                    raise Violation(f"{log[-1]} failed without a message after {log}")
                if not a.fired:
                    raise Violation(f"{log[-1]} failed: {msg[:200]} after {log}")
                if name in ("Workbench_run", "Workbench_run_hook"):
                    ran = False
        t.set_input(w.wb, 0, w.x)
        t.run(w.wb)
        got = t.output(w.wb, 0)[0].np()
        if got.shape != w.x.shape or not np.array_equal(got, np.abs(w.x - w.c)):
            raise Violation(f"the workbench computes {got.tolist()}, expected {np.abs(w.x - w.c).tolist()} after {log}")
        wb = t.bench(w.mod)
        t.set_input(wb, 0, w.x)
        t.run(wb)
        got = t.output(wb, 0)[0].np()
        t.free_Workbench(wb)
        if not np.array_equal(got, np.abs(w.x - w.c)):
            raise Violation(f"a new workbench computes {got.tolist()} after {log}")
        got = t.peek(w.tens).np()
        if not np.array_equal(got, w.x):
            raise Violation(f"the tensor changed to {got.tolist()} after {log}")
        if steps or src.bool():
            t.ImageFilter_clear(w.flt)
        elif t.take(t.ImageFilter_run(w.flt, w.img), f"the empty filter after {log}") != [t.peek(w.img)]:
            raise Violation(f"the empty filter changes the image after {log}")
        t.ImageFilter_to_float(w.flt)
        g = t.take(t.ImageFilter_run(w.flt, w.img), f"the filter after {log}")[0].np()
        if g.dtype != np.float32 or not np.array_equal(g, t.peek(w.img).np().astype(np.float32)):
            raise Violation(f"the filter gives other values after {log}")
    except ApiError as e:
        raise Violation(f"{e} after {log}")
    finally:
        mm.mm_arm(0, 0, 0)
        w.free()
    return {"desc": "; ".join(log), "nt": fired > 0, "labels": [x.split("(")[0] for x in log] + (["refused"] if fired else [])}


def t_hard(src, env):
    """hard memory whose size changes fail"""
    mm = env.mm
    b0, n0 = mm.mm_bytes(), mm.mm_blocks()
    cap = src.int(0, 2000)
    h = mm.hm_new(cap)
    log, fired, data = [f"new({cap})"], 0, b""

    def bad(m):
        raise Violation(f"hard memory {' '.join(log)}: {m}")
    try:
        for k in range(src.int(1, 6)):
            data = bytes((k * 31 + i * 7) & 255 for i in range(cap))
            if cap:
                C.memmove(mm.hm_data(h), data, cap)
            op, m = src.int(0, 2), src.int(0, 2000)
            a = Armed(src, env, 1)
            with a:
                r = mm.hm_op(h, op, m)
            fired += a.fired
            log.append(["expect", "shrink", "resize"][op] + f"({m}){'!' * a.fired}")
            c = mm.hm_cap(h)
            if r == 0:
                want = {0: max(cap, m), 1: min(cap, m), 2: m}[op]
                if c != want:
                    bad(f"capacity {c}, expected {want}")
                if op == 2 and m != cap:
                    data = b""
            elif not a.fired:
                bad(f"failed: {mm.mm_err()}")
            elif not mm.mm_err():
                bad("failed without a message")
            elif c not in ((0,) if op == 2 else (cap,)) and c != cap:
                bad(f"capacity {c} after a failure, was {cap}")
            elif c != cap:
                data = b""
            if bool(mm.hm_data(h)) != bool(c) or c and mm.mm_size_of(mm.hm_data(h)) < c:
                bad(f"capacity {c} with {mm.mm_size_of(mm.hm_data(h)) if mm.hm_data(h) else 0} bytes")
            d = data[:c]
            if d and C.string_at(mm.hm_data(h), len(d)) != d:
                bad("the contents changed")
            cap = c
    finally:
        mm.mm_arm(0, 0, 0)
        mm.hm_del(h)
    if (mm.mm_bytes(), mm.mm_blocks()) != (b0, n0) or mm.mm_wrong():
        bad("memory is left or was freed twice")
    return {"desc": " ".join(log), "nt": fired > 0, "labels": []}


TARGETS = {"hard": t_hard, "ops": t_ops, "graph": t_graph, "calls": t_calls}
WEIGHTS = {"hard": 1, "ops": 6, "graph": 3, "calls": 4}
