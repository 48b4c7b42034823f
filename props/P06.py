"""Workbench / program state machine against a model."""
import re
import ctypes as C
import numpy as np
from tv import fmt, ops, graphgen
from tv.gen import Violation, Discard
from tv.api import ApiError

ID = "P06"
RULE = ("a history of 5-40 public API calls over up to 4 workbenches, 4 programs and 2 random graphs (inputs by slot / name, runs, "
        "failing runs, hooked runs, outputs by slot / name, retained output handles, clones of workbenches and programs, "
        "programs set up on several workbenches, operator parameter changes, bound filters, freeing in any order), each "
        "result compared with a model; non-trivial = at least 2 successful runs and 2 workbenches or programs; distinct by "
        "history and data")
CASES = {"quick": 9000, "thorough": 300000}
VARIANTS = ("rel", "asan")
F = np.float32


def setup(libs):
    return ops.Env(libs)


class G:
    """a graph with tunable nodes; self.cur is the parameter set in force during evaluation"""

    def __init__(self, src, k):
        g = self.g = graphgen.gen(src, max_ops=src.choice([2, 5, 9]), max_inputs=2, prefix=f"g{k}", heavy=src.bool(0.3),
                                  in_dtype=fmt.FLOAT32, boost=src.choice([0, 0, 4]))
        self.cur, self.init, self.dom = {}, {}, {}
        n = src.int(0, 3)
        for i in range(n):
            xs = [v for v in g.vs if isinstance(v.val, np.ndarray) and v.val.dtype == F and v.bound < 1 << 16 and v.val.size < 2000
                  and self.live(v)]
            if not xs:
                break
            a = xs[-1 - src.raw(min(3, len(xs)))]
            self.tune(src, a, f"g{k}t{i}")
        for i, v in enumerate(g.inputs):
            v.node.name = v.node.name    # names stay as generated
        self.data = g.encode()
        # constant sub-graphs are folded and pack / field pairs are resolved when compiling: those nodes never run
        self.hookable = [v for v in g.vs if v.kind == "op" and id(v) in graphgen.reach(g) and self.live(v)
                         and v.node.op not in ("_pack", "_field", "_copy")]

    def live(self, v):
        return v.kind == "param" or any(self.live(a) for a in v.args)

    def tune(self, src, a, name):
        g = self.g
        nd = a.val.ndim
        k = src.choice(["leaky", "rmax"] + (["perm"] if nd >= 2 else []) + (["sum"] if nd >= 1 else []))
        if k == "leaky":
            op, key, dom = "leaky_relu", "scale", [F(v) for v in (0.5, 0.25, 0, 2, -1)]
            fn = lambda x: np.where(x >= 0, x, x * self.cur[name]).astype(F)
            bd = a.bound * 2
        elif k == "rmax":
            op, key, dom = "relu_max", "max", [F(v) for v in (1, 2, 6, 0.5)]
            fn = lambda x: np.clip(x, F(0), self.cur[name]).astype(F)
            bd = 6.0
        elif k == "perm":
            dom = [np.asarray(src.perm(nd), np.int32) for _ in range(3)]
            op, key = "_transpose", "permute"
            fn = lambda x: x.transpose(self.cur[name])
            bd = a.bound
        else:
            dom = [np.asarray([i], np.int32) for i in range(nd)]
            op, key = "reduce_sum", "dims"
            fn = lambda x: x.sum(axis=int(self.cur[name][0]), keepdims=True, dtype=F)
            bd = a.bound * max(1, a.val.size)
        v0 = dom[src.raw(len(dom))]
        self.init[name] = v0
        self.cur[name] = v0
        self.dom[name] = (key, dom)
        params = {key: v0}
        if k == "sum":
            params["keep_dims"] = True
        val = fn(a.val)
        n = fmt.Node(op, [a.node], name, params)
        v = graphgen.V(n, [a], fn, val, bd, a.exact)
        g.vs.append(v)
        if src.bool(0.5):
            n2 = fmt.Node("abs", [n], name + "a")
            v = graphgen.V(n2, [v], np.abs, np.abs(val), bd, a.exact)
            g.vs.append(v)
        g.outputs.append(v)

    def eval(self, params, xs):
        self.cur.clear()
        self.cur.update(params)
        outs = self.g.eval(xs)
        return outs, dict(self.g.memo)


class Prog:
    def __init__(self, g, params, filters, h):
        self.g, self.params, self.filters, self.h = g, params, filters, h


class Bench:
    def __init__(self, h, prog=None):
        self.h, self.prog = h, prog
        k = len(prog.g.g.inputs) if prog else 0
        self.ins = [None] * k         # None: not set / unspecified
        self.outs = None              # None: unspecified
        self.hook = {}
        self.inner = {}
        self.threads = None


def out_handle(t):
    sh = (C.c_int32 * 1)(0)
    return t.new_Tensor(C.cast(sh, C.c_void_p), 1, fmt.INT8, None)


def t_hist(src, env):
    t = env.t
    log = []
    gs = [G(src, k) for k in range(src.int(1, 2))]
    mods = [t.module(g.data) for g in gs]
    benches, progs, kept, filts, keep_in = [], [], [], [], []
    nrun = nfail = 0

    def bad(msg):
        raise Violation(f"{msg}; graphs {[g.g.describe() for g in gs]} tunables {[g.init for g in gs]}; history: {' '.join(log)}")

    def expect(ok, what, want=True):
        if bool(ok) != want:
            bad(f"{what} {'failed: ' + t.err() if want else 'succeeded'}")
        if not ok and not t.err():
            bad(f"{what} failed without a message")

    def same(fields, want, exact, what):
        try:
            graphgen.check_out(fields, want, exact, what)
        except Violation as e:
            bad(str(e))

    def fetch(b, key, keep=False):
        h = out_handle(t)
        if isinstance(key, str):
            ok = t.Workbench_output_by_name(b.h, key.encode(), h)
        else:
            ok = t.Workbench_output(b.h, key, h)
        if not ok:
            t.free_Tensor(h)
            return None, None
        r = t.get(h)
        if keep:
            return r, h
        t.free_Tensor(h)
        return r, None

    def check_outputs(b, bi, every=True):
        g = b.prog.g.g
        names = {}
        for i, v in enumerate(g.outputs):
            names.setdefault(v.node.name, i)
        for i, v in enumerate(g.outputs):
            if not every and src.bool(0.5):
                continue
            key = i
            if names[v.node.name] == i and src.bool(0.3):
                key = v.node.name
            r, h = fetch(b, key, keep=src.bool(0.15))
            if r is None:
                bad(f"output {key!r} of bench {bi} failed: {t.err()}")
            same(r, b.outs[i], v.exact, f"output {key!r} of bench {bi}")
            if h:
                kept.append((h, b.outs[i], v.exact, f"output {key!r} of bench {bi} kept at step {len(log)}"))

    def check_hook(b, bi):
        for name, (val, exact) in b.hook.items():
            r, _ = fetch(b, name)
            if r is None:
                bad(f"hooked node {name!r} of bench {bi}: {t.err()}")
            # a hooked packed value shows whatever the node left as its single result
            same(r, val, exact, f"hooked node {name!r} of bench {bi}")

    try:
        for _ in range(src.int(5, 40)):
            ops_ = [(1, "load")] if len(benches) < 4 else []
            if len(progs) < 4:
                ops_.append((1, "compile"))
            if benches:
                ops_ += [(8, "input"), (9, "run"), (3, "output"), (2, "badslot"), (1, "threads"), (1, "counts"), (1, "free"),
                         (2, "hook"), (2, "badrun")]
                if len(benches) < 4:
                    ops_.append((2, "clone"))
                if progs:
                    ops_.append((2, "setup"))
                if any(b.prog and b.prog.params for b in benches):
                    ops_.append((4, "param"))
                if any(b.prog for b in benches):
                    ops_.append((2, "filter"))
            if progs:
                ops_ += [(1, "pfree"), (2, "pparam")] + ([(2, "pclone")] if len(progs) < 4 else [])
            if kept:
                ops_.append((2, "kept"))
            k = src.weighted(ops_)
            if k == "load":
                gi = src.raw(len(gs))
                log.append(f"b{len(benches)}=load(g{gi})")
                h = t.bench(mods[gi], src.choice([None, "", "--no-pack"]))
                benches.append(Bench(h, Prog(gs[gi], dict(gs[gi].init), {}, None)))
                continue
            if k == "compile":
                gi = src.raw(len(gs))
                log.append(f"p{len(progs)}=compile(g{gi})")
                if benches and src.bool():
                    h = t.Workbench_compile(benches[src.raw(len(benches))].h, mods[gi])
                    expect(h, "compile")
                else:
                    wb = t.new_Workbench(t.cpup)
                    h = t.Workbench_compile(wb, mods[gi])
                    expect(h, "compile")
                    if src.bool():
                        expect(t.Workbench_setup(wb, h), "setup")
                        benches.append(Bench(wb, Prog(gs[gi], dict(gs[gi].init), {}, h)))
                        progs.append(benches[-1].prog)
                        log[-1] += f" b{len(benches) - 1}"
                        continue
                    t.free_Workbench(wb)
                progs.append(Prog(gs[gi], dict(gs[gi].init), {}, h))
                continue
            if k in ("pfree", "pclone", "pparam"):
                i = src.raw(len(progs))
                p = progs[i]
                log.append(f"{k}(p{i})")
                if k == "pfree":
                    t.free_Program(p.h)
                    p.h = None
                    progs.pop(i)
                elif k == "pclone":
                    h = t.Program_clone(p.h)
                    expect(h, "program clone")
                    progs.append(Prog(p.g, dict(p.params), dict(p.filters), h))
                else:
                    setp(src, t, p, lambda n, key, v: t.Program_set_operator_param(p.h, n, key, v), log, expect)
                continue
            if k == "kept":
                i = src.raw(len(kept))
                h, want, exact, what = kept[i]
                same(t.get(h), want, exact, "later read of " + what)
                if src.bool(0.3):
                    t.free_Tensor(h)
                    kept.pop(i)
                continue
            bi = src.raw(len(benches))
            b = benches[bi]
            p = b.prog
            log.append(f"{k}(b{bi})")
            if k == "free":
                t.free_Workbench(b.h)
                benches.pop(bi)
            elif k == "clone":
                h = t.Workbench_clone(b.h)
                expect(h, "workbench clone")
                nb = Bench(h, Prog(p.g, dict(p.params), dict(p.filters), None) if p else None)
                benches.append(nb)
                log[-1] += f"=b{len(benches) - 1}"
            elif k == "setup":
                i = src.raw(len(progs))
                log[-1] += f"p{i}"
                expect(t.Workbench_setup(b.h, progs[i].h), "setup")
                nb = Bench(b.h, progs[i])
                benches[bi] = nb
            elif k == "threads":
                n = src.choice([1, 2, 3, 4, 8, 0])
                expect(t.Workbench_set_computing_thread_number(b.h, n), "thread number")
                log[-1] += str(n)
            elif k == "counts":
                a, c = t.Workbench_input_count(b.h), t.Workbench_output_count(b.h)
                want = (len(p.g.g.inputs), len(p.g.g.outputs)) if p else (0, 0)
                if (a, c) != want:
                    bad(f"bench {bi}: {a} inputs and {c} outputs, expected {want}")
                if p and p.h and (t.Program_input_count(p.h), t.Program_output_count(p.h)) != want:
                    bad(f"program of bench {bi}: counts differ from {want}")
                if not t.Workbench_summary(b.h):
                    bad("summary failed: " + t.err())
            elif k == "badslot":
                n = src.choice(["nosuch", ""])
                x = t.new(np.zeros((2, 2), F))
                i = src.choice([-1, 1000, 1 << 30, -(1 << 31)])
                c = src.raw(4)
                try:
                    if c == 0:
                        expect(t.Workbench_input(b.h, i, x), f"input slot {i}", False)
                    elif c == 1:
                        expect(t.Workbench_input_by_name(b.h, n.encode(), x), f"input name {n!r}", False)
                    elif c == 2:
                        expect(t.Workbench_output(b.h, i, x), f"output slot {i}", False)
                        if t.peek(x) != fmt.t(np.zeros((2, 2), F)):
                            bad("a failed output changed the tensor given to it")
                    else:
                        expect(t.Workbench_output_by_name(b.h, n.encode(), x), f"output name {n!r}", False)
                        if t.peek(x) != fmt.t(np.zeros((2, 2), F)):
                            bad("a failed output changed the tensor given to it")
                finally:
                    t.free_Tensor(x)
            elif k == "input":
                if not p or not p.g.g.inputs:
                    continue
                i = src.raw(len(p.g.g.inputs))
                set_in(src, t, b, i, keep_in, benches, log)
            elif k in ("run", "hook"):
                if not p:
                    if k == "run":
                        expect(t.Workbench_run(b.h), "run without a program", False)
                    else:
                        arr = (C.c_char_p * 1)(b"x")
                        expect(t.Workbench_run_hook(b.h, C.cast(arr, C.c_void_p), 1), "hooked run without a program", False)
                    continue
                # complete the inputs that were never set
                for i, x in enumerate(b.ins):
                    if x is None or i in p.filters and x.size and x.min() < 0:
                        set_in(src, t, b, i, keep_in, benches, log)
                xs = [p.filters[i][1](x) if i in p.filters else x for i, x in enumerate(b.ins)]
                want, memo = p.g.eval(p.params, [np.asarray(x, F).reshape(v.val.shape) if False else x
                                                 for x, v in zip(xs, p.g.g.inputs)])
                if k == "run":
                    expect(t.Workbench_run(b.h), f"run of bench {bi}")
                    b.hook, b.inner = {}, {}
                else:
                    vs = [v for v in p.g.hookable if src.bool(0.4)][:6]
                    names = [v.node.name for v in vs] + src.subset(["nosuch"], 0.2) + \
                            [v.node.name for v in p.g.g.inputs if src.bool(0.2)]
                    arr = (C.c_char_p * max(1, len(names)))(*[n.encode() for n in names])
                    expect(t.Workbench_run_hook(b.h, C.cast(arr, C.c_void_p), len(names)), f"hooked run of bench {bi}")
                    b.hook = {v.node.name: (memo[id(v)], v.exact) for v in vs}
                    b.inner = dict.fromkeys(v.node.name for v in p.g.g.inputs)
                    log[-1] += str(names)
                nrun += 1
                b.outs = want
                check_outputs(b, bi, every=src.bool(0.7))
                check_hook(b, bi)
            elif k == "badrun":
                # inputs the graph was not made for, or none at all: the run may fail; then the outputs stay what they were
                fresh = src.bool(0.3)
                h = t.Workbench_clone(b.h) if fresh else b.h
                expect(h, "workbench clone")
                try:
                    if p is None:
                        expect(t.Workbench_run(h), "run without a program", False)
                        continue
                    if not fresh:
                        i = src.raw(len(p.g.g.inputs))
                        x = t.new(src.choice([np.zeros((1,) * 7, F), np.zeros((), F), np.zeros((3, 2), np.int32),
                                              np.ones((2, 0, 3), F), np.ones((1, 2, 3, 4, 5), F)]))
                        expect(t.Workbench_input(h, i, x), "input")
                        t.free_Tensor(x)
                        b.ins[i] = None
                    ok = t.Workbench_run(h)
                    if not ok and not t.err():
                        bad("a failed run left no message")
                    nfail += not ok
                    log[-1] += ":failed" if not ok else ":ran"
                    if not fresh:
                        b.hook = {}
                        if ok:
                            b.outs = None
                        elif b.outs is not None:
                            check_outputs(b, bi)
                finally:
                    if fresh:
                        t.free_Workbench(h)
            elif k == "output":
                if p and b.outs is not None:
                    check_outputs(b, bi)
                    check_hook(b, bi)
                    # a node that is neither an output nor hooked has no value
                    onames = {v.node.name for v in p.g.g.outputs}
                    cand = [v for v in p.g.hookable if v.node.name not in onames and v.node.name not in b.hook]
                    if cand:
                        v = cand[src.raw(len(cand))]
                        r, _ = fetch(b, v.node.name)
                        if r is not None:
                            bad(f"bench {bi}: node {v.node.name!r} is no output and was not hooked but has a value")
            elif k == "param":
                if p and p.params:
                    setp(src, t, p, lambda n, key, v: t.Workbench_set_operator_param(b.h, n, key, v), log, expect)
            elif k == "filter":
                if not p or not p.g.g.inputs:
                    continue
                i = src.raw(len(p.g.g.inputs))
                bind(src, t, b, p, i, log, expect, bad)
        # every live bench still works, and no kept handle or input was modified
        for bi, b in enumerate(benches):
            if b.prog and b.outs is not None:
                check_outputs(b, bi)
        while benches:
            t.free_Workbench(benches.pop().h)
        while progs:
            q = progs.pop()
            t.free_Program(q.h)
        for h, want, exact, what in kept:
            same(t.get(h), want, exact, "read after everything was freed of " + what)
        for h, x in keep_in:
            if t.peek(h) != fmt.t(x):
                bad(f"an input tensor {ops.ndesc(x)} was modified")
    finally:
        for m in mods:
            t.free_Module(m)
        for b in benches:
            t.free_Workbench(b.h)
        for q in progs:
            t.free_Program(q.h)
        for x in kept:
            t.free_Tensor(x[0])
        for h, _ in keep_in:
            t.free_Tensor(h)
    kinds = sorted({k for k in (re.split(r"[(\[]", x)[0].split("=")[-1] for x in log) if re.fullmatch(r"[a-z_ ]+", k)})
    return {"desc": f"{' '.join(log)[:300]} #{src.rec[-3:]}", "nt": nrun >= 2, "labels": kinds + (["failed run"] if nfail else [])}


def set_in(src, t, b, i, keep_in, benches, log):
    p = b.prog
    v = p.g.g.inputs[i]
    s = v.val.shape
    x = graphgen.data(src, s)
    f = p.filters.get(i)
    if f:
        x = np.abs(x)       # a filter takes images: byte data
    feed = x
    if "#dtype" in v.node.params and not f and src.bool(0.4):
        feed = x.astype(src.choice([np.int32, np.int8, np.float64]))
    if f and s[0] == 1 and src.bool(0.3):
        feed = x.reshape(s[1:])
    name = v.node.name
    log.append(f"x{i}")
    h = t.new(feed)
    if src.bool(0.3):
        ok = t.Workbench_input_by_name(b.h, name.encode(), h)
    else:
        ok = t.Workbench_input(b.h, i, h)
    if src.bool(0.2) and len(keep_in) < 6:
        keep_in.append((h, feed))
    else:
        t.free_Tensor(h)
    if not ok:
        raise Violation(f"input {i} ({name}): {t.err()}; history {' '.join(log)}")
    b.ins[i] = x


def setp(src, t, p, call, log, expect):
    if not p.params:
        return
    names = sorted(p.params)
    n = names[src.raw(len(names))]
    key, dom = p.g.dom[n]
    v = dom[src.raw(len(dom))]
    h = t.new(v)
    log[-1] += f"{n}.{key}={np.asarray(v).tolist()}"
    try:
        if src.bool(0.1):
            expect(call(b"nosuchnode", key.encode(), h), "set_operator_param of an unknown node")
        expect(call(n.encode(), key.encode(), h), "set_operator_param")
    finally:
        t.free_Tensor(h)
    p.params[n] = v


def bind(src, t, b, p, i, log, expect, bad):
    v = p.g.g.inputs[i]
    if v.val.ndim != 4:
        # filters work on images: any other input is left alone (2-D and 3-D inputs become 4-D for the program)
        return
    f = t.new_ImageFilter(t.cpup)
    if not f:
        bad("new_ImageFilter: " + t.err())
    try:
        k = src.raw(3)
        sc = F(src.choice([2, 0.5, 1, -1]))
        expect(t.ImageFilter_to_float(f), "to_float")
        if k:
            expect(t.ImageFilter_scale(f, float(sc)), "scale")
        if k == 2 and v.val.shape[3] <= 4:
            c = v.val.shape[3]
            m = [float(q) for q in src.iarray((c,), np.int32, -3, 3)]
            expect(t.ImageFilter_sub_mean(f, (C.c_float * c)(*m), c), "sub_mean")
            fn = lambda x, sc=sc, m=np.asarray(m, F): (x * sc - m).astype(F)
        elif k:
            fn = lambda x, sc=sc: (x * sc).astype(F)
        else:
            fn = lambda x: x
        if src.bool(0.3):
            ok = t.Workbench_bind_filter_by_name(b.h, v.node.name.encode(), f)
        else:
            ok = t.Workbench_bind_filter(b.h, i, f)
        expect(ok, "bind_filter")
        log[-1] += f"x{i}:{k}"
    finally:
        t.free_ImageFilter(f)
    p.filters[i] = (k, fn)


TARGETS = {"hist": t_hist}
