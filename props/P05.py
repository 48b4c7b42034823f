"""Compilation options do not change what a module computes; compiling does not change the module."""
import ctypes as C
import numpy as np
from tv import fmt, ops, graphgen, shim
from tv.gen import Violation, Discard
from tv.api import ApiError

ID = "P05"
RULE = ("one loaded module object (random graph with matrix products and convolutions of constant / shared-constant kernels, "
        "inputs with or without a declared dtype and fed with another dtype) compiled 2-5 times with different option strings "
        "by different routes (load, compile+setup, program clone, translated module, second workbench device map), every "
        "program run and compared with the numpy reference, the saved form of the module compared after each step; "
        "non-trivial = at least 2 operators and 2 different option strings; distinct by graph, options and data")
CASES = {"quick": 20000, "thorough": 800000}
SHIMS = ("mod",)
OPTS = [None, "", "--no-pack", "--pack", "--float16", "-fp16", "--float16 --no-float16", "--filter", "-flt --no-pack",
        "--no-filter", "-v:cpu:cpu", "-v:gpu:cpu --pack", "--float16 --no-pack", "--pack\t--no-pack --pack", "--winograd",
        "--no-winograd", "--nonsense", " --no-pack "]


def setup(libs):
    e = ops.Env(libs)
    e.mod = shim.Mod(libs["mod"])
    return e


def t_graph(src, env):
    t = env.t
    g = graphgen.gen(src, max_ops=src.choice([3, 6, 10]), boost=src.choice([0, 6]), in_dtype=fmt.FLOAT32,
                     weird_outputs=src.bool(0.3))
    what = f"graph {g.describe()}"
    m = t.module(g.encode())
    extra = []
    seen = []
    n = 0
    try:
        before = shim.canon(env.mod.save(m))

        def unchanged(by):
            d = shim.diff(before, shim.canon(env.mod.save(m)))
            if d:
                raise Violation(f"{what}: {by} changed the module: {d}")
        for _ in range(src.int(2, 5)):
            opt = src.choice(OPTS)
            route = src.weighted([(4, "load"), (3, "setup"), (2, "clone"), (2, "translate"), (1, "program")])
            w2 = f"{what} options={opt!r} route={route}"
            mm = m
            if route == "translate":
                mm = env.mod.translate(m, src.choice(OPTS) or "")
                extra.append(mm)
            prog = None
            if route in ("load", "translate"):
                wb = t.bench(mm, opt)
            else:
                wb = t.new_Workbench(t.cpup)
                try:
                    if route == "program":
                        # Program_Compile needs no workbench of its own
                        prog = t.Workbench_compile_v2(wb, m, (opt or "").encode())
                        t.free_Workbench(wb)
                        wb = t.new_Workbench(t.cpup)
                    else:
                        prog = t.Workbench_compile(wb, m) if opt is None else t.Workbench_compile_v2(wb, m, opt.encode())
                    if not prog:
                        raise Violation(f"{w2}: compile failed: {t.err()}")
                    if route == "clone":
                        p2 = t.Program_clone(prog)
                        if not p2:
                            raise Violation(f"{w2}: program clone failed: {t.err()}")
                        t.free_Program(prog)
                        prog = p2
                    if not t.Workbench_setup(wb, prog):
                        raise Violation(f"{w2}: setup failed: {t.err()}")
                finally:
                    if prog:
                        t.free_Program(prog)
            seen.append((opt or "").strip())
            try:
                unchanged(f"compiling with {opt!r} ({route})")
                for r in range(src.int(1, 2)):
                    ys, hs = [], []
                    for v in g.inputs:
                        x = graphgen.data(src, v.val.shape)
                        ys.append(x)
                        if "#dtype" in v.node.params:
                            dt = src.choice([None, np.int32, np.int8, np.float64])
                            x = x.astype(dt) if dt else x
                        hs.append(x)
                    want = g.eval(ys)
                    for i, x in enumerate(hs):
                        t.set_input(wb, i, x)
                    t.run(wb)
                    for i, v in enumerate(g.outputs):
                        graphgen.check_out(t.output(wb, i), want[i], v.exact,
                                           f"{w2} (after {seen[:-1]}) run {r} output {i}")
                    n = graphgen.numel(g, want)
                unchanged(f"running the program compiled with {opt!r} ({route})")
            finally:
                t.free_Workbench(wb)
    finally:
        for x in extra:
            t.free_Module(x)
        t.free_Module(m)
    k = sum(v.kind == "op" for v in g.vs)
    labels = sorted({v.node.op for v in g.vs}) + [f"opt {s}" for s in sorted(set(seen))]
    return {"desc": f"{what[:300]} {seen} #{src.rec[-3:]}", "nt": k >= 2 and len(set(seen)) >= 2 and n > 0, "labels": labels}


def t_filter(src, env):
    """--filter only replaces constants below the epsilon of their type by 0, and only in that program"""
    t = env.t
    dt = src.choice([np.float32, np.float64])
    eps = float(np.finfo(dt).eps)
    s = src.shape(src.int(0, 3), hi=5, limit=60)
    c = np.asarray(src.farray(s, dt, "normal") * eps * src.choice([0.25, 0.5, 1.0, 3.0, 1e6]), dt)
    c = np.asarray(np.where(src.iarray(s, np.int32, 0, 3) == 0, src.farray(s, dt, "ints"), c), dt)
    x = fmt.param("x")
    k = fmt.const(c, "c")
    y = fmt.Node("mul", [x, k], "y")
    m = t.module(fmt.enc_module([x], [y, k]))
    small = np.abs(c) < eps
    seq = [src.choice(["--filter", "", "-flt --no-pack", "--filter --no-filter", "-flt"]) for _ in range(src.int(1, 3))]
    try:
        before = shim.canon(env.mod.save(m))
        for opt in seq:
            flt = "--no-filter" not in opt and ("--filter" in opt or "-flt" in opt)
            want = np.asarray(np.where(small, dt(0), c), dt) if flt else c
            wb = t.bench(m, opt)
            try:
                xv = src.farray(s, dt, "ints")
                t.set_input(wb, 0, xv)
                t.run(wb)
                w = f"mul(x, {dt.__name__}{list(s)} const) options {opt!r} in sequence {seq}"
                ops.check(t.output(wb, 1), want, 0, 0, w + " const output")
                ops.check(t.output(wb, 0), np.asarray(xv * want, dt), 0, 0, w)
            finally:
                t.free_Workbench(wb)
            d = shim.diff(before, shim.canon(env.mod.save(m)))
            if d:
                raise Violation(f"compiling with {opt!r} changed the module: {d}")
    finally:
        t.free_Module(m)
    return {"desc": f"filter {dt.__name__}{list(s)} {seq} #{src.rec[-3:]}", "nt": bool(small.any() and (~small).any()),
            "labels": ["filter"]}


TARGETS = {"graph": t_graph, "filter": t_filter}
WEIGHTS = {"graph": 6, "filter": 1}
