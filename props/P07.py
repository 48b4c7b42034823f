"""Independent workbenches, programs, filters and tensors used at the same time from several threads."""
import ctypes as C
import queue
import threading
import numpy as np
from tv import fmt, ops, graphgen
from tv.gen import Violation, Discard
from tv.api import ApiError

ID = "P07"
RULE = ("2-6 threads, each with a script of 2-12 actions (run with given data, run a failing input, clone and free workbenches and "
        "programs, load modules, compile, set threads / parameters, cast and pack tensors, image filters) over workbenches of its own made by loading, "
        "cloning a common one, or compiling; results compared with the numpy evaluation of the graph, error messages with "
        "those of the own thread; and generated interleavings of 2-4 threads calling one at a time against a model of the message and context of each; also under ThreadSanitizer; non-trivial = at least 2 threads that ran a graph with an operator; distinct by graphs and scripts")
CASES = {"quick": 2500, "thorough": 120000}
VARIANTS = ("rel", "tsan")
CASE_TIMEOUT = 40


def setup(libs):
    e = ops.Env(libs)
    return e


class World:
    pass


def t_threads(src, env):
    t = env.t
    ng = src.weighted([(3, 1), (2, 2)])
    graphs = [graphgen.gen(src, max_ops=src.choice([3, 6, 9]), heavy=src.bool(0.4), inexact=False,
                           weird_outputs=False) for _ in range(ng)]
    # data sets and expected outputs, computed before
    sets = []
    for g in graphs:
        ss = []
        for k in range(2):
            xs = [v.val if k == 0 else graphgen.data(src, v.val.shape) for v in g.inputs]
            ss.append((xs, g.eval(xs), [bool(v.exact) for v in g.outputs]))
        sets.append(ss)
    mods = [t.module(g.encode()) for g in graphs]
    blobs = [g.encode() for g in graphs]
    shared_inputs = src.bool(0.3)
    bases, hands, progs = [], [], []
    nthr = src.int(2, 6)
    scripts = []
    for k in range(nthr):
        s = [("make", src.weighted([(3, "clone"), (2, "preclone"), (2, "load"), (2, "compile"), (2, "program"), (2, "shared compile")]), src.int(0, ng - 1))]
        for _ in range(src.int(1, 10)):
            s.append(src.weighted([(10, ("run", src.int(0, 1))), (2, ("bad",)), (2, ("threads", src.int(1, 4))), (1, ("reclone",)),
                                   (1, ("tensor", src.int(0, 1 << 20))), (1, ("filter", src.int(0, 1 << 20))), (1, ("message", src.int(0, 999))),
                                   (1, ("make", src.choice(["clone", "load", "compile", "program", "shared compile"]), src.int(0, ng - 1)))]))
        scripts.append(s)
    what = f"{nthr} threads {scripts} on " + " | ".join(g.describe() for g in graphs)
    fail = []
    start = threading.Barrier(nthr)
    try:
        for m in mods:
            bases.append(t.bench(m))
            wb = t.new_Workbench(t.cpup)
            p = t.Workbench_compile_v2(wb, m, b"")
            t.free_Workbench(wb)
            if not p:
                raise ApiError("compile: " + t.err())
            progs.append(p)
        if shared_inputs:
            for ss in sets:
                hands.append([[t.new(x) for x in xs] for xs, _, _ in ss])
        pre = {}
        for k, s in enumerate(scripts):
            if s[0][1] == "preclone":
                pre[k] = t.Workbench_clone(bases[s[0][2]])

        def make(k, how, gi):
            if how == "preclone" and k in pre:
                return pre.pop(k)
            if how in ("clone", "preclone"):
                wb = t.Workbench_clone(bases[gi])
            elif how == "load":
                m = t.module(blobs[gi])
                try:
                    return t.bench(m)
                finally:
                    t.free_Module(m)
            else:
                wb = t.new_Workbench(t.cpup)
                if how == "program":
                    p = t.Program_clone(progs[gi])
                elif how == "shared compile":
                    p = t.Workbench_compile_v2(wb, mods[gi], b"")
                else:
                    m = t.module(blobs[gi])
                    p = t.Workbench_compile_v2(wb, m, b"")
                    t.free_Module(m)
                if not p or not t.Workbench_setup(wb, p):
                    raise ApiError("setup: " + t.err())
                t.free_Program(p)
            if not wb:
                raise ApiError(how + ": " + t.err())
            return wb

        def body(k):
            wb = None
            gi = 0
            mine = None
            try:
                start.wait()
                for st in scripts[k]:
                    a = st[0]
                    if a == "make":
                        if wb:
                            t.free_Workbench(wb)
                        wb, gi = None, st[2]
                        wb = make(k, st[1], gi)
                    elif a == "reclone":
                        nw = t.Workbench_clone(wb)
                        if not nw:
                            raise ApiError("clone: " + t.err())
                        t.free_Workbench(wb)
                        wb = nw
                    elif a == "threads":
                        t.Workbench_set_computing_thread_number(wb, st[1])
                    elif a == "run":
                        xs, want, exact = sets[gi][st[1]]
                        for i, x in enumerate(xs):
                            t.set_input(wb, i, hands[gi][st[1]][i] if shared_inputs else x)
                        t.run(wb)
                        for i, w in enumerate(want):
                            graphgen.check_out(t.output(wb, i), w, exact[i], f"thread {k} after {st} output {i}")
                    elif a == "bad":
                        h = t.new(np.zeros(2, np.float32))
                        ok = t.Workbench_input(wb, 100 + k, h)
                        msg = t.err()
                        t.free_Tensor(h)
                        if ok or f"index={100 + k}" not in msg:
                            raise Violation(f"thread {k}: input {100 + k} out of range gave {ok} and the message {msg!r}")
                        mine = msg
                    elif a == "message":
                        mine = f"thread {k} says {st[1]}"
                        t.set_error_message(mine.encode())
                    elif a == "tensor":
                        x = np.arange(st[1] % 97, dtype=np.float32) - k
                        h = t.new(x)
                        c = t.Tensor_cast(h, fmt.INT32)
                        t.free_Tensor(h)
                        got = t.take(c)[0].np()
                        if not np.array_equal(got, x.astype(np.int32)):
                            raise Violation(f"thread {k}: cast gave {got}")
                    elif a == "filter":
                        f = t.new_ImageFilter(t.cpup)
                        v = 1 + st[1] % 7
                        x = (np.arange(2 * 3 * 3) * v % 251).astype(np.uint8).reshape(2, 3, 3)
                        t.ImageFilter_to_float(f)
                        t.ImageFilter_scale(f, C.c_float(v))
                        t.ImageFilter_to_chw(f)
                        if not t.Workbench_setup_context(wb) or not t.ImageFilter_compile(f):
                            raise ApiError("filter compile: " + t.err())
                        h = t.new(x)
                        r = t.ImageFilter_run(f, h)
                        if not r:
                            raise ApiError("filter: " + t.err())
                        t.free_Tensor(h)
                        got = t.take(r, "filter")[0].np().reshape(3, 2, 3)
                        t.free_ImageFilter(f)
                        if not np.array_equal(got, x.astype(np.float32).transpose(2, 0, 1) * v):
                            raise Violation(f"thread {k}: image filter gave {got}")
                    if mine is not None and a in ("message", "run", "tensor", "threads") and a != "bad":
                        # successful calls of any thread leave this thread's message alone or clear it; others never replace it
                        msg = t.err()
                        if msg != mine and msg != "":
                            raise Violation(f"thread {k}: error message became {msg!r}, was {mine!r}")
            except threading.BrokenBarrierError:
                pass
            except Exception as e:
                fail.append(e if isinstance(e, Violation) else Violation(f"thread {k}: {type(e).__name__}: {e}"))
                start.abort()
            finally:
                if wb:
                    t.free_Workbench(wb)
        ts = [threading.Thread(target=body, args=(k,)) for k in range(nthr)]
        for x in ts:
            x.start()
        for x in ts:
            x.join()
        # the common objects still work
        for gi, b in enumerate(bases):
            xs, want, exact = sets[gi][0]
            for i, x in enumerate(xs):
                t.set_input(b, i, x)
            t.run(b)
            for i, w in enumerate(want):
                graphgen.check_out(t.output(b, i), w, exact[i], f"common workbench {gi} afterwards, output {i}")
        for w in pre.values():
            t.free_Workbench(w)
    finally:
        for b in bases:
            t.free_Workbench(b)
        for p in progs:
            t.free_Program(p)
        for m in mods:
            t.free_Module(m)
        for ss in hands:
            for hs in ss:
                for h in hs:
                    t.free_Tensor(h)
    if fail:
        raise Violation(f"{fail[0]} in {what}")
    ran = sum(any(a[0] == "run" for a in s) for s in scripts)
    return {"desc": what, "nt": ran >= 2, "labels": [f"{nthr} threads"] + sorted({s[0][1] for s in scripts})}


class Stepper:
    """A thread that runs one closure at a time, when told to."""

    def __init__(self):
        self.q, self.r = queue.Queue(), queue.Queue()
        self.th = threading.Thread(target=self.loop)
        self.th.start()

    def loop(self):
        for f in iter(self.q.get, None):
            try:
                self.r.put((f(), None))
            except BaseException as e:
                self.r.put((None, e))

    def __call__(self, f):
        self.q.put(f)
        v, e = self.r.get()
        if e is not None:
            raise e
        return v

    def stop(self):
        self.q.put(None)
        self.th.join()


def t_lockstep(src, env):
    """A generated interleaving of calls of several threads, one call at a time, against a model of what is kept per thread:
    the last error message and the context set up."""
    t = env.t
    n = src.int(2, 4)
    steps = []
    for _ in range(src.int(3, 24)):
        steps.append((src.int(0, n - 1), src.weighted([
            (4, ("fail", src.int(50, 90))), (2, ("set", src.int(0, 999))), (1, ("clear",)), (5, ("read",)), (2, ("ok", src.int(0, 99))),
            (2, ("run", src.int(-9, 9))), (2, ("context", src.bool(0.7))), (3, ("filter", src.int(1, 9))), (2, ("intime", src.int(1, 9)))])))
    what = f"{n} threads, steps {steps}"
    x = fmt.param("x")
    mod = t.module(fmt.enc_module([x], [fmt.Node("add", [x, fmt.const(np.array([3], np.float32), "c")], "y")]))
    ths = [Stepper() for _ in range(n)]
    wbs = []
    model = [""] * n          # None = unspecified
    ctx = [False] * n
    seen = set()
    try:
        for k in range(n):
            wbs.append(ths[k](lambda: t.bench(mod)))
        for si, (k, st) in enumerate(steps):
            wb, a = wbs[k], st[0]

            def fail(msg):
                raise Violation(f"step {si} {st} of thread {k}: {msg} in {what}")
            if a == "fail":
                def f():
                    h = t.new(np.zeros(2, np.float32))
                    ok = t.Workbench_input(wb, st[1] * 10 + k, h)
                    m = t.err()
                    t.free_Tensor(h)
                    t.set_error_message(m.encode())
                    return ok, m
                ok, m = ths[k](f)
                if ok or f"index={st[1] * 10 + k}" not in m:
                    fail(f"input out of range gave {ok} and the message {m!r}")
                model[k] = m
            elif a == "set":
                m = f"thread {k} says {st[1]}" * (1 + st[1] % 3)
                ths[k](lambda: t.set_error_message(m.encode()))
                model[k] = m
            elif a == "clear":
                ths[k](lambda: t.set_error_message(b""))
                model[k] = ""
            elif a == "read":
                m = ths[k](lambda: t.err())
                if m != model[k]:
                    fail(f"the last error message is {m!r}, was {model[k]!r}")
            elif a == "ok":
                def f():
                    h = t.new(np.arange(st[1], dtype=np.float32))
                    m = t.err()
                    s = list(t.peek(h).np().shape)
                    t.free_Tensor(h)
                    return m, s, t.err()
                m, s, m2 = ths[k](f)
                if s != [st[1]] or m != "" or m2 != "":
                    fail(f"a call that worked gave {s} and left the message {m!r} {m2!r}")
                model[k] = ""
            elif a == "run":
                def f():
                    t.set_input(wb, 0, np.array([st[1], 1], np.float32))
                    t.run(wb)
                    return t.output(wb, 0)[0].np(), t.err()
                got, m = ths[k](f)
                if not np.array_equal(got, np.array([st[1] + 3, 4], np.float32)) or m != "":
                    fail(f"gave {got} and the message {m!r}")
                model[k] = ""
            elif a == "context":
                ths[k](lambda: t.Workbench_setup_context(wb))
                ctx[k], model[k] = True, ""
            elif a in ("filter", "intime"):
                def f():
                    x = np.arange(2 * 3 * 3).astype(np.float32).reshape(2, 3, 3)
                    h = t.new(x)
                    if a == "intime":
                        r = t.intime_sigmoid(h)
                        m = t.err()
                    else:
                        fl = t.new_ImageFilter(t.cpup)
                        t.ImageFilter_scale(fl, C.c_float(st[1]))
                        ok = t.ImageFilter_compile(fl)
                        m = t.err()
                        r = None
                        if ok:
                            r = t.ImageFilter_run(fl, h)
                            m = t.err()
                        t.free_ImageFilter(fl)
                    t.free_Tensor(h)
                    got = t.take(r)[0].np() if r else None
                    return got, m, x
                got, m, x = ths[k](f)
                if ctx[k]:
                    want = 1 / (1 + np.exp(-x)) if a == "intime" else x * st[1]
                    if got is None or m or not np.allclose(got, want, rtol=1e-4, atol=1e-5):
                        fail(f"with a context gave {got} and the message {m!r}")
                elif got is not None or not m:
                    fail(f"a thread without context gave {got} and the message {m!r}")
                model[k] = None
                ths[k](lambda: t.set_error_message(b""))
                model[k] = ""
            seen.add(a)
    finally:
        for k, wb in enumerate(wbs):
            ths[k](lambda: t.free_Workbench(wb))
        for x in ths:
            x.stop()
        t.free_Module(mod)
    return {"desc": what, "nt": len({k for k, _ in steps}) >= 2 and len(seen) >= 3, "labels": [f"{n} threads"] + sorted(seen)}


TARGETS = {"threads": t_threads, "lockstep": t_lockstep}
WEIGHTS = {"threads": 3, "lockstep": 1}
