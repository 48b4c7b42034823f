"""Helpers shared by the operator properties: one-operator sessions and comparison."""
import numpy as np
from . import api, fmt
from .gen import Violation, Discard


class Env:
    def __init__(self, libs):
        self.libs = libs
        self.t = api.Tennis(libs["lib"])

    def session(self, op, n, params=None, consts=None, options=None, threads=None):
        return Session(self, op, n, params or {}, consts or {}, options, threads)


class Session:
    """A workbench holding one operator; call it with the non-constant inputs."""

    def __init__(self, env, op, n, params, consts, options, threads):
        self.t = env.t
        self.op = op
        self.n = n
        self.consts = dict(consts)
        m = self.t.module(api.op_module(op, n, params, self.consts))
        try:
            self.wb = self.t.bench(m, options)
        finally:
            self.t.free_Module(m)
        if threads:
            self.t.Workbench_set_computing_thread_number(self.wb, threads)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.t.free_Workbench(self.wb)

    def __call__(self, *xs):
        """returns the output fields as list of T (usually one)"""
        assert len(xs) == self.n - len(self.consts)
        t = self.t
        hs = []
        try:
            for i, x in enumerate(xs):
                if isinstance(x, (list, tuple)):
                    t.set_input(self.wb, i, x)
                    continue
                hs.append((x, t.new(x)))
                t.set_input(self.wb, i, hs[-1][1])
            t.run(self.wb)
            out = t.output(self.wb, 0)
            for x, h in hs:
                if t.peek(h) != fmt.t(x):
                    raise Violation(f"{self.op}: the run modified an input tensor {ndesc(x)}")
            return out
        finally:
            for x, h in hs:
                t.free_Tensor(h)


def run_op(src, env, op, xs, params=None, const_ok=(), threads=True, warm=None):
    """one checked run; inputs whose index is in const_ok may be drawn to be model constants.
    warm: other valid inputs to run first on the same workbench (their result is not checked, only that the
    checked run does not depend on them). Sometimes the run is repeated: the repetition must be bit-identical."""
    consts = {i: xs[i] for i in const_ok if src.bool(0.5)}
    th = src.choice([None, 1, 2, 4]) if threads else None
    xr = [x for i, x in enumerate(xs) if i not in consts]
    with env.session(op, len(xs), params, consts, threads=th) as s:
        if warm is not None and not consts and src.bool(0.4):
            s(*warm)
        out = s(*xr)
        if src.bool(0.1):
            again = s(*xr)
            if again != out:
                raise Violation(f"{op}({params}): a second run on the same inputs {[ndesc(x) for x in xr]} differs")
        return out


def ndesc(x):
    if isinstance(x, np.ndarray):
        return f"{x.dtype.name}{list(x.shape)}"
    return repr(x)


def check(got, want, rtol=1e-5, atol=1e-6, what="", dtype=None, scale=None):
    """got: T or [T]; want: ndarray. scale: magnitude used for the absolute tolerance (array or scalar)"""
    if isinstance(got, list):
        if len(got) != 1:
            raise Violation(f"{what}: {len(got)} fields in the output, 1 expected")
        got = got[0]
    want = np.asarray(want)
    if got.shape != tuple(want.shape):
        raise Violation(f"{what}: output shape {list(got.shape)}, expected {list(want.shape)}")
    wd = fmt.ID[want.dtype] if dtype is None else dtype
    if got.dtype != wd:
        raise Violation(f"{what}: output dtype {fmt.NAMES.get(got.dtype, got.dtype)}, expected {fmt.NAMES.get(wd)}")
    g = got.np()
    compare(g, want, rtol, atol, what, scale)


def compare(g, want, rtol, atol, what="", scale=None):
    if g.size == 0:
        return
    if want.dtype.kind in "iub" and g.dtype.kind in "iub" and rtol == 0 and atol == 0:
        bad = g != want.astype(g.dtype)
    else:
        gf, wf = g.astype(np.float64), want.astype(np.float64)
        with np.errstate(all="ignore"):
            tol = atol + rtol * (np.abs(wf) if scale is None else np.maximum(np.abs(wf), scale))
            bad = ~(np.abs(gf - wf) <= tol)
        bad &= ~((gf == wf) | (np.isnan(gf) & np.isnan(wf)))
    if bad.any():
        i = np.unravel_index(int(np.argmax(bad)), bad.shape)
        raise Violation(f"{what}: {int(bad.sum())} of {bad.size} elements differ, first at {[int(k) for k in i]}: "
                        f"got {g[i]!r}, expected {want[i]!r}")


def must_refuse(src, env, op, inputs, P, why, const_ok=()):
    """run what the operator is not defined for: an error is expected, never a result"""
    from tv.api import ApiError
    what = f"{op} {why} on {[(i.dtype.name, i.shape) for i in inputs]}, {[(a, b.tolist() if hasattr(b, 'tolist') else b) for a, b in P.items()]}"
    try:
        got = run_op(src, env, op, inputs, P, const_ok)
    except ApiError:
        return {"desc": what, "nt": True, "labels": [op, "refused"]}
    raise Violation(f"{what}: a result {[list(f.shape) for f in got]} instead of an error", sig=f"refuse {op} {why.split()[0]}")
