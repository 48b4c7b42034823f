"""Activations and unary arithmetic against numpy."""
import numpy as np
from math import erf
from tv import fmt, ops
from tv.gen import Violation, Discard

ID = "P10"
RULE = ("one unary operator (21 operators) applied to a generated tensor (rank 0-5, sizes around the vector width, "
        "dtypes the operator documents, 1-3 runs with different shapes, 1-4 threads); slopes, biases and scales that do not fit have to be refused; non-trivial = at least 2 elements; "
        "distinct by operator, parameters, types, shapes and data seed")
CASES = {"quick": 60000, "thorough": 1200000}


def setup(libs):
    return ops.Env(libs)


INTS = [np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64, np.uint64]
F = [np.float32, np.float32, np.float64]
verf = np.vectorize(erf, otypes=[np.float64])

# name: (dtypes, float64 reference, domain)
UN = {
    "abs": (F + INTS, np.abs, None),
    "square": (F + INTS, lambda x: x * x, None),
    "relu": (F + INTS, lambda x: np.maximum(x, x.dtype.type(0)), None),
    "relu_max": (F + INTS, None, None),
    "leaky_relu": (F, None, None),
    "sigmoid": (F, lambda x: 1 / (1 + np.exp(-x)), "mid"),
    "tanh": (F, np.tanh, None),
    "exp": (F, np.exp, "mid"),
    "softplus": (F, lambda x: np.log1p(np.exp(x)), "mid"),
    "sqrt": (F, np.sqrt, "pos"),
    "rsqrt": (F, lambda x: 1 / np.sqrt(x), "spos"),
    "erf": (F, lambda x: verf(x) if x.size else x, None),
    "floor": (F + INTS, np.floor, None),
    "ceil": (F + INTS, np.ceil, None),
    "hard_sigmoid": (F, None, None),
    "pow": (F, None, None),
    "to_float": (F + INTS, None, None),
}
NAMES = list(UN)


def shape(src):
    k = src.weighted([(6, "nd"), (4, "flat"), (1, "big"), (1, "zero")])
    if k == "nd":
        return src.shape(src.int(0, 5), hi=9, limit=1500)
    if k == "flat":
        return (src.int(1, 70),)
    if k == "big":
        return (src.int(1, 5), src.int(100, 900))
    s = list(src.shape(src.int(1, 4), hi=5, limit=100))
    s[src.raw(len(s))] = 0
    return tuple(s)


def data(src, s, dt, dom):
    if np.dtype(dt).kind != "f":
        if src.bool(0.5):
            return src.iarray(s, dt, -40, 40)
        return src.iarray(s, dt)
    x = src.farray(s, dt)
    if dom == "mid":
        x = np.clip(x, -60, 60)
    elif dom == "pos":
        x = np.abs(x)
    elif dom == "spos":
        x = np.abs(x) + dt(0.01)
    return np.asarray(x, dt).reshape(s)


def t_unary(src, env):
    op = src.choice(NAMES)
    dts, ref, dom = UN[op]
    dt = src.choice(dts)
    P = {}
    want_dt = None
    if op == "relu_max":
        mx = src.choice([6, 1, 0, 20, 3.5, 100])
        if np.dtype(dt).kind != "f":
            mx = int(mx)
        P = {"max": np.float32(mx)}
        ref = lambda x: np.minimum(np.maximum(x, x.dtype.type(0)), x.dtype.type(mx))
    elif op == "leaky_relu":
        sc = src.choice([0.1, 0.01, 0.5, 0.0, 1.0, 2.0, -0.5])
        P = {"scale": np.float32(sc)}
        if sc == 0.0 and src.bool():
            P = {}
        ref = lambda x: np.where(x > 0, x, x * np.float64(np.float32(sc)))
    elif op == "hard_sigmoid":
        al, be = src.choice([0.2, 0.1, 1.0, 0.5]), src.choice([0.5, 0.0, 0.3, 1.0])
        if not (al == 0.2 and src.bool()):
            P["alpha"] = np.float32(al)
        if not (be == 0.5 and src.bool()):
            P["beta"] = np.float32(be)
        ref = lambda x: np.clip(np.float64(np.float32(al)) * x + np.float64(np.float32(be)), 0, 1)
    elif op == "pow":
        y = src.choice([2, 3, 0.5, 1, 0, -1, 1.5, -2])
        P = {"y": np.float32(y)}
        dom = "spos" if y < 0 or y != int(y) else None
        ref = lambda x: np.power(x, np.float64(y))
    elif op == "to_float":
        want_dt = np.float32
        ref = lambda x: x.astype(np.float32)
    runs = src.weighted([(5, 1), (2, 2), (1, 3)])
    desc, nt = [], False
    with env.session(op, 1, P, threads=src.choice([None, 1, 2, 4])) as sess:
        for _ in range(runs):
            x = data(src, shape(src), dt, dom)
            if op == "pow":
                x = np.clip(x, -1e4, 1e4).astype(dt)
            out = sess(x)
            if np.dtype(dt).kind == "f":
                with np.errstate(all="ignore"):
                    w = ref(x.astype(np.float64)).astype(want_dt or dt)
                rt = 2e-5 if dt == np.float32 else 1e-12
                at = 1e-6 if dt == np.float32 else 1e-13
                if op in ("abs", "relu", "floor", "ceil", "relu_max", "to_float"):
                    rt = at = 0
            else:
                if op == "abs" and (x == np.iinfo(dt).min).any() and np.iinfo(dt).min < 0:
                    x[x == np.iinfo(dt).min] = 7
                    out = sess(x)
                with np.errstate(all="ignore"):
                    w = (x if op in ("floor", "ceil") else ref(x)).astype(want_dt or dt)
                rt = at = 0
            ops.check(out, w, rt, at, f"{op}{P or ''}({ops.ndesc(x)})")
            desc.append(ops.ndesc(x))
            nt = nt or x.size >= 2
    return {"desc": f"{op} {P} {desc} #{src.rec[-1]}", "nt": nt,
            "labels": [op, np.dtype(dt).name] + (["rerun"] if runs > 1 else [])}


def t_prelu(src, env):
    nd = src.int(1, 5)
    s = src.shape(nd, hi=9, limit=1500)
    d = src.raw(nd)
    dt = src.choice(F)
    x, sl = src.farray(s, dt), src.farray((s[d],), dt)
    out = ops.run_op(src, env, "prelu", [x, sl], {"dim": np.int32(d)}, const_ok=(1,))
    b = sl.reshape([s[d] if i == d else 1 for i in range(nd)])
    want = np.where(x > 0, x, x * b).astype(dt)
    ops.check(out, want, 1e-5 if dt == np.float32 else 1e-12, 0, f"prelu(dim={d}, {ops.ndesc(x)})")
    return {"desc": f"prelu {d} {ops.ndesc(x)} #{src.rec[-2:]}", "nt": x.size >= 2}


def t_bias(src, env):
    """per-channel bias and scale-and-bias"""
    nd = src.int(2, 5)
    s = src.shape(nd, hi=9, limit=1500)
    d = src.raw(nd)
    dt = src.choice(F)
    x, b, sc = src.farray(s, dt), src.farray((s[d],), dt), src.farray((s[d],), dt)
    sh = [s[d] if i == d else 1 for i in range(nd)]
    fmt_name = None
    P = {"dim": np.int32(d)}
    op = src.choice(["add_bias", "batch_scale"])
    if op == "add_bias":
        if nd == 4 and d in (1, 3) and src.bool(0.4):
            P = {"format": "NCHW" if d == 1 else "NHWC"}
        out = ops.run_op(src, env, op, [x, b], P, const_ok=(1,))
        want = x + b.reshape(sh)
    else:
        out = ops.run_op(src, env, op, [x, sc, b], P, const_ok=(1, 2))
        want = x * sc.reshape(sh) + b.reshape(sh)
    scale = np.abs(x) * (np.abs(sc.reshape(sh)) if op != "add_bias" else 1) + np.abs(b.reshape(sh))
    ops.check(out, want.astype(dt), 1e-5 if dt == np.float32 else 1e-12, 1e-30, f"{op}({P}, {ops.ndesc(x)})", scale=scale)
    return {"desc": f"{op} {P} {ops.ndesc(x)} #{src.rec[-2:]}", "nt": x.size >= 2, "labels": [op]}


def t_refuse(src, env):
    """slopes, biases and scales of another length or type, axes the tensor has not: an error, never a result"""
    op = src.choice(["prelu", "add_bias", "batch_scale"])
    nd = src.int(1, 5)
    s = src.shape(nd, hi=9, limit=1500)
    d = src.raw(nd)
    dt = src.choice(F)
    x = src.farray(s, dt)
    m = 2 if op == "batch_scale" else 1
    ps = [np.ones(s[d], dt) for _ in range(m)]
    j = src.raw(m)
    off = src.choice([1, 1, 2, 7, 1000])
    k = src.choice(["axis", "length", "rank", "type"])
    if k == "axis":
        d = nd + off - 1 if src.bool() else -nd - off
    elif k == "length":
        ps[j] = np.ones(s[d] + off if src.bool() else max(s[d] - 1, 0) or s[d] + 1, dt)
    elif k == "rank":
        ps[j] = ps[j].reshape((1, -1) if src.bool() else (-1, 1))
    else:
        ps[j] = ps[j].astype(np.float64 if dt == np.float32 else np.float32)
    return ops.must_refuse(src, env, op, [x] + ps, {"dim": np.int32(d)}, f"{k} {d}", range(1, m + 1))


TARGETS = {"unary": t_unary, "prelu": t_prelu, "bias": t_bias, "refuse": t_refuse}
WEIGHTS = {"unary": 10, "prelu": 1, "bias": 2, "refuse": 1}
