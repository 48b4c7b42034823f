"""Reductions, normalisations and softmax against numpy."""
import numpy as np
from tv import fmt, ops
from tv.gen import Violation, Discard

ID = "P15"
RULE = ("one reduction/normalisation operator with generated rank 1-5 input, axis (negative too), keep-dims, epsilon and "
        "per-channel parameters as inputs or model constants, float32/float64 (and integers for sum/max/argmax); "
        "axes and per-channel parameters that do not fit have to be refused; non-trivial = input has at least 2 elements; distinct by operator, parameters, shape and data seed")
CASES = {"quick": 60000, "thorough": 1000000}
INTS = [np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64, np.uint64]
F = [np.float32, np.float32, np.float64]


def setup(libs):
    return ops.Env(libs)


def tol(dt):
    return (2e-5, 1e-6) if dt == np.float32 else (1e-11, 1e-12)


def draw(src, dt, lo=1, maxrank=5):
    s = src.shape(src.int(lo, maxrank), hi=12, limit=2000)
    if np.dtype(dt).kind == "f":
        return src.farray(s, dt)
    return src.iarray(s, dt, -100, 100) if src.bool() else src.iarray(s, dt)


def t_reduce(src, env):
    op = src.choice(["reduce_sum", "reduce_mean", "max", "argmax"])
    dt = src.choice(F + ([] if op == "reduce_mean" else INTS))
    x = draw(src, dt)
    nd = x.ndim
    d = src.raw(nd)
    neg = src.bool(0.4)
    keep = src.choice([None, True, False])
    if op == "argmax":
        keep = None
    dims = [d]
    if op == "reduce_mean":
        n = src.int(1, nd - d)
        dims = list(range(d, d + n))
        pd = [k - nd if neg else k for k in dims]
        P = {"dims": np.asarray(pd, np.int32)} if n > 1 or src.bool() else {"dims": np.int32(pd[0])}
    else:
        P = {"dims" if op == "reduce_sum" else "dim": np.int32(d - nd if neg else d)}
    if keep is not None:
        P["keep_dims"] = np.int32(keep) if op == "max" else bool(keep)
    kd = keep is not False
    rt, at = tol(dt)
    if op == "reduce_sum":
        with np.errstate(all="ignore"):
            w = x.sum(axis=d, keepdims=kd, dtype=np.float64 if np.dtype(dt).kind == "f" else dt).astype(dt)
        sc = np.abs(x.astype(np.float64)).sum(axis=d, keepdims=kd)
    elif op == "reduce_mean":
        w = x.mean(axis=tuple(dims), keepdims=kd, dtype=np.float64).astype(dt)
        sc = np.abs(x.astype(np.float64)).mean(axis=tuple(dims), keepdims=kd)
    elif op == "max":
        w, sc = x.max(axis=d, keepdims=kd), None
        rt = at = 0
    else:
        # some ties: the first one wins is not promised, any maximal index is right
        w, sc = x.argmax(axis=d).astype(np.int32), None
        rt = at = 0
    if np.dtype(dt).kind != "f":
        rt = at = 0
    out = ops.run_op(src, env, op, [x], P)
    what = f"{op}({P}, {ops.ndesc(x)})"
    if op == "argmax":
        o = out[0]
        if o.dtype != fmt.INT32 or o.shape != w.shape:
            raise Violation(f"{what}: got {o}")
        i = o.np()
        if i.size and (i.min() < 0 or i.max() >= x.shape[d]):
            raise Violation(f"{what}: index out of range")
        g = np.take_along_axis(x, np.expand_dims(i, d), d)
        ops.compare(g, x.max(axis=d, keepdims=True), 0, 0, what + " value at the returned index")
    else:
        ops.check(out, w, rt, at, what, scale=sc)
    return {"desc": f"{what} #{src.rec[-2:]}", "nt": x.size >= 2, "labels": [op, np.dtype(dt).name]}


def t_softmax(src, env):
    dt = src.choice(F)
    x = draw(src, dt)
    nd = x.ndim
    d = src.raw(nd)
    smooth = src.choice([None, True, False])
    x = np.clip(x, -50, 50) if smooth is False else x
    if smooth is not False and src.bool(0.2):
        x = x * dt(50)
    P = {"dim": np.int32(d - nd if src.bool(0.4) else d)}
    if smooth is not None:
        P["smooth"] = smooth
    out = ops.run_op(src, env, "softmax", [x], P)
    e = np.exp(x.astype(np.float64) - x.max(axis=d, keepdims=True))
    w = (e / e.sum(axis=d, keepdims=True)).astype(dt)
    rt, at = tol(dt)
    # exp() of a float32 argument of size |x| carries an error of |x| ulp
    ops.check(out, w, rt, at * 2, f"softmax({P}, {ops.ndesc(x)})")
    return {"desc": f"softmax {P} {ops.ndesc(x)} #{src.rec[-2:]}", "nt": x.size >= 2}


def t_norm(src, env):
    op = src.choice(["batch_norm", "fused_batch_norm", "batch_scale"])
    dt = src.choice(F)
    x = draw(src, dt, 1)
    nd = x.ndim
    d = src.raw(nd)
    n = x.shape[d]
    sh = [n if i == d else 1 for i in range(nd)]
    mean, sc, bias = src.farray((n,), dt), src.farray((n,), dt), src.farray((n,), dt)
    var = np.abs(src.farray((n,), dt)) + dt(0.1)
    P = {"dim": np.int32(d)}
    eps = np.float32(1e-5)
    if src.bool(0.5) and op != "batch_scale":
        eps = np.float32(src.choice([1e-5, 1e-3, 0.1, 1e-6]))
        P["epsilon"] = eps
    r = lambda v: v.astype(np.float64).reshape(sh)
    X = x.astype(np.float64)
    if op == "batch_scale":
        ins, w = [x, sc, bias], X * r(sc) + r(bias)
        scale = np.abs(X * r(sc)) + np.abs(r(bias))
    else:
        w = (X - r(mean)) / np.sqrt(r(var) + np.float64(eps))
        scale = (np.abs(X) + np.abs(r(mean))) / np.sqrt(r(var) + np.float64(eps))
        ins = [x, mean, var]
        if op == "fused_batch_norm":
            ins += [sc, bias]
            w = w * r(sc) + r(bias)
            scale = scale * np.abs(r(sc)) + np.abs(r(bias))
    out = ops.run_op(src, env, op, ins, P, const_ok=range(1, len(ins)))
    rt, at = tol(dt)
    if dt == np.float64:
        rt = 1e-9
    ops.check(out, w.astype(dt), rt, 1e-12, f"{op}({P}, {ops.ndesc(x)})", scale=scale)
    return {"desc": f"{op} {P} {ops.ndesc(x)} #{src.rec[-2:]}", "nt": x.size >= 2, "labels": [op]}


def t_l2(src, env):
    dt = src.choice(F)
    x = draw(src, dt)
    nd = x.ndim
    d = src.raw(nd)
    P = {}
    dd = d
    if src.bool(0.7):
        P["dim"] = np.int32(d - nd if src.bool(0.4) else d)
    else:
        dd = nd - 1
    eps = 1e-10
    if src.bool(0.4):
        eps = src.choice([1e-10, 1e-3, 1.0])
        P["epsilon"] = np.float32(eps)
    out = ops.run_op(src, env, "l2_norm", [x], P)
    X = x.astype(np.float64)
    w = X / np.sqrt((X * X).sum(axis=dd, keepdims=True) + eps)
    rt, at = tol(dt)
    ops.check(out, w.astype(dt), max(rt, 1e-8), max(at, 1e-8), f"l2_norm({P}, {ops.ndesc(x)})")
    return {"desc": f"l2_norm {P} {ops.ndesc(x)} #{src.rec[-2:]}", "nt": x.size >= 2}


def t_image(src, env):
    op = src.choice(["prewhiten", "norm_image"])
    dt = src.choice(F)
    s = src.shape(src.int(1, 4), hi=12, limit=3000)
    x = src.farray(s, dt)
    if src.bool(0.1):
        x = np.full(s, x.ravel()[0], dt)
    P = {}
    eps = 1e-5
    if op == "norm_image" and src.bool(0.5):
        eps = src.choice([1e-5, 1e-2, 1.0])
        P["epsilon"] = np.float32(eps)
    out = ops.run_op(src, env, op, [x], P)
    X = x.astype(np.float64)
    ax = tuple(range(1, X.ndim))
    n = X[0].size
    m = X.mean(axis=ax, keepdims=True)
    sd = np.sqrt(((X - m) ** 2).mean(axis=ax, keepdims=True))
    den = np.maximum(sd, 1 / np.sqrt(n)) if op == "prewhiten" else sd + np.float64(np.float32(eps))
    # rounding of the mean and of the subtraction, magnified by the division
    e = np.finfo(dt).eps
    at = (np.abs(X).max() * (e * 8 + n * 4e-16)) / den + 1e-6 * (dt == np.float32)
    w = (X - m) / den
    rel = 2e-5 if dt == np.float32 else 1e-10
    o = out[0]
    if len(out) != 1 or o.shape != x.shape or o.dtype != fmt.ID[x.dtype]:
        raise Violation(f"{op}({ops.ndesc(x)}): output {o}")
    if dt == np.float64 or True:
        # the standard deviation of a constant image is itself rounding noise
        noise = np.abs(X).max() * 1e-15 * n
        if op == "norm_image" and (sd < noise * 1e6).any() and eps < 1e-3:
            raise Discard()
    g = o.np().astype(np.float64)
    bad = np.abs(g - w) > at + rel * np.abs(w)
    if bad.any():
        i = np.unravel_index(int(np.argmax(bad)), bad.shape)
        raise Violation(f"{op}({P}, {ops.ndesc(x)}): at {[int(k) for k in i]} got {g[i]}, expected {w[i]}")
    return {"desc": f"{op} {P} {ops.ndesc(x)} #{src.rec[-2:]}", "nt": x.size >= 2, "labels": [op]}


def t_chunked(src, env):
    """softmax / normalisation of a slab equals the slab of the result (independence of other slabs)"""
    dt = np.float32
    x = draw(src, dt, 2, 4)
    nd = x.ndim
    d = src.raw(nd)
    o = (d + 1 + src.raw(nd - 1)) % nd
    i = src.raw(x.shape[o])
    op = src.choice(["softmax", "l2_norm", "reduce_sum", "reduce_mean", "max"])
    P = {"dims" if op.startswith("reduce") else "dim": np.int32(d)}
    a = ops.run_op(src, env, op, [x], P)[0].np()
    b = ops.run_op(src, env, op, [np.ascontiguousarray(np.take(x, [i], axis=o))], P)[0].np()
    ops.compare(b, np.take(a, [i], axis=o), 1e-6, 1e-7, f"{op}({P}, {ops.ndesc(x)}) slab {i} of axis {o}")
    return {"desc": f"slab {op} {P} {ops.ndesc(x)} {o} {i} #{src.rec[-2:]}", "nt": x.size >= 2}


def t_refuse(src, env):
    """axes the tensor has not and per-channel parameters of another length: an error, never a result"""
    op = src.choice(["reduce_sum", "reduce_mean", "max", "argmax", "softmax", "l2_norm", "batch_norm", "fused_batch_norm", "batch_scale"])
    dt = src.choice(F)
    x = draw(src, dt)
    nd = x.ndim
    off = src.choice([1, 1, 2, 7, 1000])
    over = nd + off - 1 if src.bool() else -nd - off
    if op in ("batch_norm", "fused_batch_norm", "batch_scale"):
        d = src.raw(nd)
        k = src.choice(["axis", "length", "rank", "type"])
        m = {"batch_norm": 2, "fused_batch_norm": 4, "batch_scale": 2}[op]
        ps = [np.ones(x.shape[d], dt) for _ in range(m)]
        j = src.raw(m)
        if k == "axis":
            d = nd + off - 1 if src.bool() else -off - nd
        elif k == "length":
            ps[j] = np.ones(x.shape[d] + off if src.bool() else max(x.shape[d] - 1, 0) or x.shape[d] + 1, dt)
        elif k == "rank":
            ps[j] = ps[j].reshape((1, -1) if src.bool() else (-1, 1))
        else:
            ps[j] = ps[j].astype(np.float64 if dt == np.float32 else np.float32)
        return ops.must_refuse(src, env, op, [x] + ps, {"dim": np.int32(d)}, f"{k} {d}", range(1, m + 1))
    P = {"dims" if op.startswith("reduce") else "dim": np.int32(over)}
    if op == "reduce_mean" and nd >= 3 and src.bool(0.3):
        P = {"dims": np.asarray([0, 2], np.int32)}
    elif op == "reduce_mean" and src.bool(0.3):
        P = {"dims": np.asarray([nd - 1, nd], np.int32)}
    return ops.must_refuse(src, env, op, [x], P, "axis")


TARGETS = {"reduce": t_reduce, "softmax": t_softmax, "norm": t_norm, "l2_norm": t_l2, "image": t_image, "slab": t_chunked, "refuse": t_refuse}
WEIGHTS = {"reduce": 5, "softmax": 3, "norm": 3, "l2_norm": 2, "image": 2, "slab": 1, "refuse": 1}
