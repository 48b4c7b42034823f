"""Operators given tensors or parameters they are not made for answer with an error or a result, and stay usable."""
import importlib
import numpy as np
from tv import fmt, ops, api
from tv.api import ApiError
from tv.gen import Violation, Discard

ID = "P35"
RULE = ("a valid case of one of the generators of P09-P21 (about 100 operators), of which one run-time input, constant or parameter is changed: left "
        "unset, other type, sizes, rank, empty, no dimensions, several fields, values out of range; the parameter missing, of other sign, type, size or "
        "value; run between two valid runs of the same workbench (with a changed constant or parameter: alone); non-trivial = every case; distinct by operator, change and shapes")
CASES = {"quick": {"rel": 6000, "asan": 20000}, "thorough": {"rel": 100000, "asan": 500000}}
VARIANTS = ("asan", "rel")
SRC = {"P09": ["binary", "equal", "where"], "P10": ["unary", "prelu", "bias"], "P11": ["conv", "depth", "wino"],
       "P12": ["transpose", "dcn", "quantize", "qconv"], "P13": ["pool", "global", "padding"], "P14": ["gemm", "inner", "matmul"],
       "P15": ["reduce", "softmax", "norm", "l2_norm", "image"],
       "P16": ["reshape", "transpose", "join", "part", "pad", "repeat", "block", "shape"],
       "P17": ["slice", "slice_v3", "strided", "gather", "scatter", "topk", "nms"], "P18": ["resize", "affine", "sample"], "P19": ["op"],
       "P20": ["roi", "patch", "yolo", "poster", "prior", "detection", "proposal"], "P21": ["lstm"]}
MODS = {p: importlib.import_module("props." + p) for p in SRC}


class Captured(Exception):
    pass


class Cap:
    def __init__(self, op, n, params, consts, options, threads):
        self.v = (op, n, dict(params or {}), dict(consts or {}), options, threads)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def __call__(self, *xs):
        e = Captured()
        e.v = self.v + (list(xs),)
        raise e


class CapEnv:
    def __init__(self, env):
        self.libs, self.t = env.libs, env.t

    def session(self, op, n, params=None, consts=None, options=None, threads=None):
        return Cap(op, n, params, consts, options, threads)


def setup(libs):
    return ops.Env(libs)


ANY = [np.int8, np.uint8, np.int16, np.int32, np.int64, np.float32, np.float64, np.bool_]


def change(src, x):
    """another tensor (or None: unset)"""
    if isinstance(x, (list, tuple)):
        x = x[0] if len(x) else np.zeros(1, np.float32)
    x = np.asarray(x)
    k = src.choice(["unset", "type", "size", "size", "rank+", "rank-", "empty", "scalar", "fields", "values", "values", "flat", "swap"])
    if k == "unset":
        return k, None
    if k == "type":
        dt = src.choice(ANY)
        return f"type {np.dtype(dt).name}", np.clip(np.nan_to_num(x.astype(np.float64)), -100, 100).astype(dt)
    if k == "size":
        if not x.ndim:
            return "rank+", x.reshape(1)
        d = src.raw(x.ndim)
        n = src.choice([0, 1, 1, 2, x.shape[d] + 1, max(x.shape[d] - 1, 0), x.shape[d] * 2, 7])
        s = list(x.shape)
        s[d] = n
        if fmt.prod(s) > 20000:
            raise Discard()
        return f"size {d}={n}", np.resize(x, s).astype(x.dtype) if x.size else np.zeros(s, x.dtype)
    if k == "rank+":
        d = src.int(0, x.ndim)
        return f"rank+ {d}", np.expand_dims(x, d) if x.ndim < 8 else x
    if k == "rank-":
        if x.ndim < 1:
            raise Discard()
        d = src.raw(x.ndim)
        if not x.shape[d]:
            raise Discard()
        return f"rank- {d}", np.take(x, 0, d)
    if k == "empty":
        return k, np.zeros([0] + list(x.shape[1:]), x.dtype)
    if k == "scalar":
        return k, np.zeros((), x.dtype)
    if k == "fields":
        return k, (x, x)
    if k == "flat":
        return k, x.reshape(-1)
    if k == "swap":
        return k, np.ascontiguousarray(x.T)
    y = x.copy()
    if not y.size:
        raise Discard()
    v = src.choice([0, -1, 1, 2, -7, 100, 9])
    if y.dtype.kind == "f" and src.bool(0.3):
        v = src.choice([np.nan, np.inf, -np.inf, 1e20, -1e20, 1e-30])
    if y.dtype.kind in "ub":
        v = abs(v) if isinstance(v, int) else 0
    with np.errstate(all="ignore"):
        if src.bool(0.3):
            y[...] = v
        else:
            y.reshape(-1)[src.raw(y.size)] = v
    return f"values {v}", y


def change_param(src, v):
    k = src.choice(["missing", "zero", "minus", "other", "big", "size", "scalar", "type", "empty"])
    if k == "missing":
        return k, None
    if isinstance(v, str):
        return "text", src.choice(["", "NHWC", "what", "NCHW"])
    a = np.asarray(v)
    if k == "size":
        return k, np.resize(a, src.choice([(1,), (2,), (3,), (4,), (4, 2), (2, 2), (5,), (8,), (1, 4), (3, 2)])).astype(a.dtype)
    if k == "scalar":
        return k, a.reshape(-1)[0] if a.size else np.int32(0)
    if k == "type":
        return k, a.astype(src.choice([np.float32, np.int64, np.int8, np.float64]))
    if k == "empty":
        return k, np.zeros((0,), a.dtype)
    b = a.copy()
    w = {"zero": 0, "minus": src.choice([-1, -1, -2, -100]), "other": src.choice([1, 2, 3, 5, 7]), "big": 50}[k]
    if b.dtype.kind in "ub":
        w = abs(w) % 2 if b.dtype.kind == "b" else abs(w)
    if not b.size:
        raise Discard()
    if b.dtype.kind in "iu" and not np.iinfo(b.dtype).min <= w <= np.iinfo(b.dtype).max:
        raise Discard()
    if b.ndim and (k == "big" or src.bool(0.7)):
        b.reshape(-1)[src.raw(b.size)] = w
    else:
        b[...] = w
    return f"{k} {w}", b


def wild(src, env):
    p = src.choice(sorted(SRC))
    t = src.choice(SRC[p])
    try:
        MODS[p].TARGETS[t](src, CapEnv(env))
    except Captured as e:
        op, n, P, consts, options, threads, xs = e.v
    except (Discard, Violation, AttributeError, TypeError):
        raise Discard()
    else:
        raise Discard()
    if sum(np.asarray(x).size for x in xs if not isinstance(x, (list, tuple))) > 20000:
        raise Discard()
    kinds = ["input"] * (3 * bool(xs)) + ["const"] * (2 * bool(consts)) + ["param"] * (2 * bool(P))
    kind = src.choice(kinds) if kinds else src.choice(["input"])
    if not kinds:
        raise Discard()
    nd = lambda v: ops.ndesc(v) if isinstance(v, np.ndarray) else repr(v)[:60]
    d0 = f"{op}({', '.join(nd(x) for x in xs)}; {({k: ops.ndesc(v) for k, v in consts.items()})}; {({k: (v.tolist() if hasattr(v, 'tolist') else v) for k, v in P.items()})})"[:500]
    if kind == "input":
        i = src.raw(len(xs))
        k, y = change(src, xs[i])
        d = f"{d0}: input {i} {k} {nd(y) if y is not None else ''}"
        with env.session(op, n, P, consts, options, threads) as s:
            order = src.choice([0, 1, 2])
            a = b = None
            try:
                if order and y is not None:
                    a = s(*xs)
            except ApiError:
                raise Discard()
            if y is None:
                hs = []
                try:
                    for j, x in enumerate(xs):
                        if j != i:
                            if isinstance(x, (list, tuple)):
                                env.t.set_input(s.wb, j, x)
                            else:
                                hs.append(env.t.new(x))
                                env.t.set_input(s.wb, j, hs[-1])
                    env.t.run(s.wb)
                    env.t.output(s.wb, 0)
                except ApiError:
                    pass
                finally:
                    for h in hs:
                        env.t.free_Tensor(h)
                r = "unset"
            else:
                ys = list(xs)
                ys[i] = y
                try:
                    s(*ys)
                    r = "answered"
                except ApiError:
                    r = "refused"
            try:
                b = s(*xs)
            except ApiError:
                if a is not None:
                    raise Violation(f"{d}: the valid inputs are refused after it", sig=f"after {op}")
            if a is not None and a != b:
                raise Violation(f"{d}: the valid inputs give another result after it", sig=f"after {op}")
        return {"desc": d, "nt": True, "labels": [op, "input " + k.split()[0], r]}
    if kind == "const":
        i = src.choice(sorted(consts))
        k, y = change(src, consts[i])
        if y is None or isinstance(y, tuple):
            raise Discard()
        consts[i] = y
        d = f"{d0}: const {i} {k} {nd(y)}"
    else:
        i = src.choice(sorted(P))
        k, y = change_param(src, P[i])
        if y is None:
            del P[i]
        else:
            P[i] = y
        d = f"{d0}: param {i} {k} {nd(y)}"
    r = "answered"
    try:
        with env.session(op, n, P, consts, options, threads) as s:
            s(*xs)
    except ApiError:
        r = "refused"
    return {"desc": d, "nt": True, "labels": [op, kind + " " + k.split()[0], r]}


TARGETS = {"wild": wild}
