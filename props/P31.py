"""The intime functions compute what the operators they stand for compute."""
import ctypes as C
import numpy as np
from tv import fmt, ops, api, graphgen, cxx
from tv.gen import Violation, Discard
from tv.api import ApiError
from props import P10, P14, P15, P16, P17, P18, P22

ID = "P31"
RULE = ("the generators and definitions of the operator checks (transpose, sigmoid, gather, concat, softmax, pad, cast, resize2d, affine_sample2d, matrix product), "
        "the operator called through ts_intime_* of the C API or ts::api::intime of the C++ API, in the context of a workbench that is empty or holds a "
        "program being run in between, thread counts changed, earlier results kept and looked at again after other calls, runs and the end of the workbench; "
        "memcpy between tensors and raw buffers at random offsets; non-trivial = at least 2 output elements or bytes; distinct by function, arguments, data and history")
CASES = {"quick": 15000, "thorough": 500000}
SHIMS = ("cpp",)
VARIANTS = ("rel", "asan")


def setup(libs):
    env = ops.Env(libs)
    env.c = env.t
    env.cxx = cxx.Cx(libs["lib"], libs["cpp"])
    return env


class Force:
    """a source whose next choice among operators takes the given one"""

    def __init__(self, src, op):
        self.src, self.op = src, op

    def __getattr__(self, k):
        return getattr(self.src, k)

    def choice(self, xs):
        if self.op is not None and self.op in xs:
            op, self.op = self.op, None
            return op
        return self.src.choice(xs)


class Session:
    def __init__(self, env, op, n, params, consts):
        self.e, self.op, self.n, self.P, self.consts = env, op, n, params, consts

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def __call__(self, *xs):
        xs = list(xs)
        full = [self.consts[i] if i in self.consts else xs.pop(0) for i in range(self.n)]
        return self.e.call(self.op, full, self.P)


class Ctx:
    """a workbench context the functions run in"""

    def __init__(self, src, env):
        self.src, self.libs = src, env.libs
        self.t = env.cxx if src.bool(0.4) else env.c
        if self.t is env.cxx:
            self.t.mode(src.raw(1 << 16))
        self.kept = []          # (handle, bytes, what)
        self.calls = []
        self.g = None
        t = self.t
        self.other = None
        if src.bool(0.3):
            self.g = graphgen.gen(src, max_ops=3, max_inputs=2)
            m = t.module(self.g.encode())
            try:
                self.wb = t.bench(m)
            finally:
                t.free_Module(m)
            self.xs = [graphgen.data(src, v.val.shape) for v in self.g.inputs]
            for i, x in enumerate(self.xs):
                t.set_input(self.wb, i, x)
            self.want = self.g.eval(self.xs)
        else:
            self.wb = t.new_Workbench(t.cpup)
            if not self.wb:
                raise ApiError("workbench: " + t.err())
        if src.bool(0.2):
            # another context first
            self.other = t.new_Workbench(t.cpup)
            t.Workbench_setup_context(self.other)
        if not t.Workbench_setup_context(self.wb):
            raise ApiError("context: " + t.err())

    def session(self, op, n, params=None, consts=None, options=None, threads=None):
        if threads:
            self.t.Workbench_set_computing_thread_number(self.wb, threads)
        return Session(self, op, n, params or {}, consts or {})

    def between(self):
        s, t = self.src, self.t
        if self.g is None or not s.bool(0.4):
            return
        self.calls.append("run")
        t.run(self.wb)
        for i, (v, want) in enumerate(zip(self.g.outputs, self.want)):
            graphgen.check_out(t.output(self.wb, i), want, v.exact, f"output {i} of the program after {self.calls[-4:]}")

    def call(self, op, xs, P):
        s, t = self.src, self.t
        self.between()
        hs = [t.new(x) for x in xs]
        try:
            h = self.func(op, hs, P, xs)
            what = f"{op} {P}"
            if not h:
                e = t.err()
                if not e:
                    raise Violation(f"{what}: failed without a message")
                raise ApiError(e)
            got = t.get(h)
            for x, y in zip(xs, hs):
                if t.peek(y) != fmt.t(x):
                    raise Violation(f"{what}: an argument was changed")
            self.calls.append(op)
            if len(self.kept) < 4 and s.bool(0.5):
                self.kept.append((h, got, f"result of {what} after {self.calls[-3:]}"))
            else:
                t.free_Tensor(h)
            self.again()
            return got
        finally:
            for y in hs:
                t.free_Tensor(y)

    def func(self, op, hs, P, xs):
        t = self.t
        i32 = lambda k, d: int(P.get(k, d))
        if op == "_transpose":
            if "permute" not in P:
                raise Discard
            p = [int(v) for v in P["permute"]]
            a = (api.I32 * max(1, len(p)))(*p)
            return t.intime_transpose(hs[0], C.cast(a, api.P), len(p))
        if op == "sigmoid":
            return t.intime_sigmoid(hs[0])
        if op == "gather":
            return t.intime_gather(hs[0], hs[1], i32("axis", 0))
        if op == "concat":
            a = (api.P * len(hs))(*hs)
            return t.intime_concat(C.cast(a, api.P), len(hs), i32("dim", 0))
        if op == "softmax":
            return t.intime_softmax(hs[0], i32("dim", 0), int(bool(P.get("smooth", True))))
        if op == "pad":
            return t.intime_pad(hs[0], hs[1], float(P.get("padding_value", 0)))
        if op == "_cast":
            return t.intime_cast(hs[0], i32("dtype", 0))
        if op == "_resize2d":
            return t.intime_resize2d(hs[0], hs[1], i32("type", 0))
        if op == "affine_sample2d":
            if "outer_value" in P:
                return t.intime_affine_sample2d(hs[0], hs[1], hs[2], i32("dim", -2), float(P["outer_value"]), i32("type", 0))
            return t.intime_affine_on_sample2d(hs[0], hs[1], hs[2], i32("dim", -2), i32("type", 0))
        if op == "inner_prod":
            return t.intime_matmul(hs[0], hs[1], int(bool(P.get("transpose", False))))
        raise Discard

    def again(self):
        for h, got, what in self.kept:
            if self.t.get(h) != got:
                raise Violation(f"{what} changed by {self.calls[-2:]}")

    def close(self, ok):
        t = self.t
        try:
            if ok:
                self.between()
                self.again()
            t.free_Workbench(self.wb)
            self.wb = None
            if self.other:
                t.free_Workbench(self.other)
            if ok:
                self.calls.append("end of the workbench")
                self.again()
        finally:
            for h, _, _ in self.kept:
                t.free_Tensor(h)


def t_cast(src, env):
    a, b = src.choice(P16.ALL), src.choice(P16.ALL)
    s = P22.shape(src)
    x = P22.values(src, s, a, b)
    what = f"intime_cast {np.dtype(a).name}{list(s)} -> {np.dtype(b).name}"
    with env.session("_cast", 1, {"dtype": np.int32(fmt.ID[np.dtype(b)])}) as ses:
        P22.check(ses(x)[0], x, b, what)
    return {"desc": what, "nt": x.size >= 2}


def t_sigmoid(src, env):
    x = P10.data(src, P10.shape(src), src.choice([np.float32, np.float64]), None)
    with env.session("sigmoid", 1) as ses:
        out = ses(x)
    with np.errstate(all="ignore"):
        w = (1 / (1 + np.exp(-x.astype(np.float64)))).astype(x.dtype)
    ops.check(out, w, 2e-5, 1e-6, f"sigmoid({ops.ndesc(x)})")
    return {"desc": f"sigmoid {ops.ndesc(x)} #{src.rec[-1]}", "nt": x.size >= 2}


def t_one(src, env):
    """concat of one tensor"""
    x = P16.arr(src, P16.sh(src, 1))
    with env.session("concat", 1, {"dim": np.int32(src.raw(x.ndim))}) as ses:
        ops.check(ses(x), x, 0, 0, "concat of one tensor")
    return {"desc": f"concat of {ops.ndesc(x)}", "nt": x.size >= 2}


FUNCS = {"transpose": (P16.t_transpose, "_transpose"), "sigmoid": (t_sigmoid, None), "gather": (P17.t_gather, "gather"), "concat": (P16.t_join, "concat"),
         "one": (t_one, None), "softmax": (P15.t_softmax, None), "pad": (P16.t_pad, "pad"), "cast": (t_cast, None), "resize2d": (P18.t_resize, None),
         "affine": (P18.t_affine, None), "matmul": (P14.t_inner, None)}


def t_func(src, env):
    e = Ctx(src, env)
    ok, nt, desc, labels = False, False, [], []
    try:
        for _ in range(src.weighted([(5, 1), (2, 2), (2, 4)])):
            k = src.choice(list(FUNCS))
            f, op = FUNCS[k]
            try:
                d = f(Force(src, op), e)
            except Discard:
                continue
            desc.append(d["desc"])
            nt |= bool(d["nt"])
            labels.append(k)
        if not desc:
            raise Discard
        ok = True
    finally:
        e.close(ok)
    return {"desc": f"{'C++' if e.t is env.cxx else 'C'} {desc} {'with a program' if e.g else ''}", "nt": nt, "labels": labels + ["C++" if e.t is env.cxx else "C"]}


def t_memcpy(src, env):
    """bytes between tensors and raw buffers"""
    t = env.cxx if src.bool(0.4) else env.c
    if t is env.cxx:
        t.mode(src.raw(1 << 16))
    xs = [P16.arr(src, P16.sh(src, 0, 3, 6)) for _ in range(src.int(1, 3))]
    xs = [x if x.size else np.zeros((2,), np.int32) for x in xs]
    bufs = [bytearray(np.ascontiguousarray(x).tobytes()) for x in xs]
    hs = [t.new(x) for x in xs]
    raw = bytearray(src.nprng().integers(0, 256, 64).astype(np.uint8).tobytes())
    craw = (C.c_char * 64).from_buffer(raw)
    addr = C.addressof(craw)
    mraw = bytearray(raw)
    desc, nt = [], False
    try:
        for _ in range(src.int(1, 5)):
            i, j = src.raw(len(hs)), src.raw(len(hs))
            dm, sm = src.choice(["self", "self", "raw", "ptr"]), src.choice(["self", "self", "raw", "ptr"])
            D, S = (mraw if dm == "raw" else bufs[i]), (mraw if sm == "raw" else bufs[j])
            n = src.int(0, min(len(D), len(S)))
            a, b = src.int(0, len(D) - n), src.int(0, len(S) - n)
            if D is S and abs(a - b) < n:
                continue
            dp = addr if dm == "raw" else t.Tensor_data(hs[i]) if dm == "ptr" else None
            sp = addr if sm == "raw" else t.Tensor_data(hs[j]) if sm == "ptr" else None
            if src.bool(0.1):
                n = -src.int(1, 9)
            r = t.intime_memcpy(hs[i], dp, a, hs[j], sp, b, n)
            what = f"memcpy({dm} {i}+{a}, {sm} {j}+{b}, {n})"
            desc.append(what)
            if n < 0:
                if r != 0 or not t.err():
                    if t is env.c:
                        raise Violation(f"{what} returned {r}")
            else:
                if r != n:
                    raise Violation(f"{what} returned {r}: {t.err()}")
                D[a:a + n] = S[b:b + n]
                nt |= n >= 2
            for k, h in enumerate(hs):
                if t.peek(h).data != bytes(bufs[k]):
                    raise Violation(f"tensor {k} is wrong after {desc}")
            if raw != mraw:
                raise Violation(f"the raw buffer is wrong after {desc}")
    finally:
        for h in hs:
            t.free_Tensor(h)
    if not desc:
        raise Discard
    return {"desc": f"{[ops.ndesc(x) for x in xs]} {desc}", "nt": nt, "labels": ["memcpy"]}


TARGETS = {"func": t_func, "memcpy": t_memcpy}
WEIGHTS = {"func": 5, "memcpy": 1}
