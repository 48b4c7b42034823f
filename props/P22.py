"""Element type conversions: ts_Tensor_cast, _cast, to_float, typed node parameters."""
import ctypes as C
import numpy as np
from tv import fmt, ops, api
from tv.gen import Violation, Discard
from tv.api import ApiError

ID = "P22"
RULE = ("tensors of generated type, shape (0-5 dims, empty, around multiples of 4) and values (extremes of both types, halves, "
        "powers of two, subnormal and boundary halfs, random bits) converted to another type by ts_Tensor_cast, ts_intime_cast, the _cast and to_float "
        "operators (input or constant), chains of conversions, and operators whose parameters are stored in other numeric types; "
        "compared with numpy's exact conversion; non-trivial = at least 2 elements; distinct by types, shapes and data")
CASES = {"quick": 14000, "thorough": 900000}
VARIANTS = ("rel", "asan")

INTS = [np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64, np.uint64]
FLTS = [np.float16, np.float32, np.float64]
ALL = INTS + FLTS


def setup(libs):
    return ops.Env(libs)


def shape(src):
    k = src.weighted([(5, "flat"), (5, "nd"), (1, "zero"), (1, "big")])
    if k == "flat":
        return (src.int(1, 21),)
    if k == "nd":
        return src.shape(src.int(0, 5), hi=7, limit=400)
    if k == "big":
        return (src.int(1, 6), src.int(100, 400))
    s = list(src.shape(src.int(1, 4), hi=5, limit=100))
    s[src.raw(len(s))] = 0
    return tuple(s)


def ends(dt):
    if np.dtype(dt).kind == "f":
        f = np.finfo(dt)
        m, tiny, sub = float(f.max), float(f.tiny), float(f.smallest_subnormal)
        return [m, -m, tiny, sub, -tiny, tiny / 2, tiny * 1.5, tiny * 0.75, 1 + float(f.eps)]
    i = np.iinfo(dt)
    return [i.min, i.max, i.max - 1, i.min + 1 if i.min else 1]


def values(src, s, a, b):
    """array of type a whose values can be converted to b without leaving its range (when either is a float type)"""
    n = fmt.prod(s)
    g = src.nprng()
    ak, bk = np.dtype(a).kind, np.dtype(b).kind
    kind = src.choice(["small", "ends", "bits", "mixed"])
    if ak != "f":
        i = np.iinfo(a)
        small = g.integers(max(i.min, -130), min(i.max, 300), n, endpoint=True).astype(a)
        bits = g.integers(i.min, i.max, n, dtype=a, endpoint=True)
        pool = [v for v in ends(a) + (ends(b) if bk != "f" else [2 ** 24 + 1, 2 ** 24 + 3, 2 ** 53 + 1, 2 ** 53 + 3, 2049, 65504, 65519])
                + [0, 1, 127, 128, 255, 256] if i.min <= v <= i.max]
        e = np.array([pool[k] for k in g.integers(0, len(pool), n)], a) if n else small
    else:
        fi = np.finfo(a)
        small = (g.integers(-300, 300, n) / g.choice([1, 2, 4, 8], n)).astype(a)
        bits = np.ascontiguousarray(g.integers(0, 256, n * np.dtype(a).itemsize, dtype=np.uint8)).view(a)[:n].copy()
        exps = np.float64(2.0) ** g.integers(-30, 20, n) * (1 + g.integers(0, 4096, n) / 4096) * g.choice([-1, 1], n)
        with np.errstate(all="ignore"):
            bits = np.where(g.random(n) < 0.5, bits, exps.astype(a))
            bits = np.where(np.isfinite(bits), bits, a(1)).astype(a)
        pool = [v for v in ends(a) + ends(b) + [0.0, -0.0, 0.5, -0.5, 1.5, 2.5, 0.999999, -0.999999, 127.5, 255.9, 2 ** -24, 2 ** -15, 3 * 2 ** -16, 2 ** -14]
                if abs(float(v)) <= float(fi.max)]
        with np.errstate(all="ignore"):
            e = np.array([a(pool[k]) for k in g.integers(0, len(pool), n)], a) if n else small
    x = {"small": small, "ends": e, "bits": bits}.get(kind)
    if x is None:
        pick = g.integers(0, 3, n)
        x = np.where(pick == 0, small, np.where(pick == 1, e, bits)).astype(a)
    x = x.astype(a).reshape(s)
    # a float must be inside the range of the other type
    with np.errstate(all="ignore"):
        if ak == "f" and bk != "f":
            i = np.iinfo(b)
            t = np.trunc(x.astype(np.float64))
            ok = (t >= float(i.min)) & (t <= (float(i.max) if i.bits < 54 else np.nextafter(2.0 ** (i.bits - (bk == "i")), 0)))
            x = np.where(ok, x, a(3)).astype(a)
        elif bk == "f" and b != np.float64 or (ak == "f" and bk == "f"):
            m = float(np.finfo(b).max)
            lim = 65504.0 if b == np.float16 else m
            ok = np.abs(x.astype(np.float64)) <= lim
            x = np.where(ok, x, a(3)).astype(a)
    return x


def check(got, x, b, what):
    """got T, x source array"""
    if got.dtype != fmt.ID[np.dtype(b)] or got.shape != x.shape:
        raise Violation(f"{what}: gave {got!r}")
    g = got.np()
    a = x.dtype
    if g.size == 0:
        return
    with np.errstate(all="ignore"):
        if np.dtype(b) == np.float16 and a != np.float16:
            # nearest half below or above, exact when it is a half; either rounding is accepted
            near = x.astype(np.float64).astype(np.float16) if a.kind == "f" else x.astype(np.float16)
            gv, xv = g.astype(np.float64), x.astype(np.float64)
            up, dn = np.nextafter(near, np.float16(np.inf)), np.nextafter(near, np.float16(-np.inf))
            exact = near.astype(np.float64) == xv
            ok = np.where(exact, gv == xv, ((gv == near) | ((near > xv) & (gv == dn.astype(np.float64))) | ((near < xv) & (gv == up.astype(np.float64)))))
            ok |= (np.abs(xv) < 2.0 ** -24) & (np.abs(gv) <= 2.0 ** -24)
        else:
            want = x.astype(b)
            ok = (g == want) & (np.signbit(g) == np.signbit(want) if np.dtype(b).kind == "f" else True)
            if np.dtype(b).kind == "f" and a.kind != "f" and b != np.float64:
                want2 = x.astype(np.float64).astype(b)
                ok |= g == want2
    if not ok.all():
        i = np.unravel_index(int(np.argmin(ok)), g.shape)
        raise Violation(f"{what}: element {[int(k) for k in i]}: {x[i]!r} became {g[i]!r}")


def raw(t, x):
    """tensor of any type"""
    x = np.ascontiguousarray(x).reshape(np.shape(x))
    sh = (api.I32 * max(1, x.ndim))(*x.shape)
    h = t.new_Tensor(C.cast(sh, api.P), x.ndim, fmt.ID[x.dtype], None)
    if not h:
        raise ApiError("ts_new_Tensor: " + t.err())
    if x.nbytes:
        C.memmove(t.Tensor_data(h), x.tobytes(), x.nbytes)
    return h


def t_cast(src, env):
    t = env.t
    a, b = src.choice(ALL), src.choice(ALL)
    s = shape(src)
    x = values(src, s, a, b)
    how = src.weighted([(4, "api"), (2, "op"), (2, "const"), (1, "intime"), (1, "to_float"), (2, "chain")])
    what = f"{how} {np.dtype(a).name}{list(s)} -> {np.dtype(b).name}"
    if how == "to_float":
        b = np.float32
        x = values(src, s, a, b)
        if a == np.float16:
            a = np.float64
            x = values(src, s, a, b)
        with env.session("to_float", 1) as ses:
            check(ses(x)[0], x, b, what)
    elif how in ("op", "const"):
        if how == "op" and a == np.float16:
            how = "const"
        with env.session("_cast", 1, {"dtype": np.int32(fmt.ID[np.dtype(b)])}, {0: x} if how == "const" else {},
                         threads=src.choice([None, 1, 3])) as ses:
            for r in range(2):
                o = ses() if how == "const" else ses(x)
                if len(o) != 1:
                    raise Violation(f"{what}: {len(o)} fields")
                check(o[0], x, b, f"{what} run {r}")
                if how != "const":
                    x = values(src, shape(src), a, b)
    else:
        h = raw(t, x)
        try:
            if how == "intime":
                wb = t.new_Workbench(t.cpup)
                try:
                    if not t.Workbench_setup_context(wb):
                        raise ApiError("context: " + t.err())
                    c = t.intime_cast(h, fmt.ID[np.dtype(b)])
                    o = t.take(c, what)
                finally:
                    t.free_Workbench(wb)
            else:
                o = t.take(t.Tensor_cast(h, fmt.ID[np.dtype(b)]), what)
            check(o[0], x, b, what)
            if t.peek(h) != fmt.t(x):
                raise Violation(f"{what}: the tensor converted was changed")
            if how == "chain":
                # there and back: exact when the middle type holds every value
                g = o[0].np()
                y = raw(t, g)
                try:
                    back = t.take(t.Tensor_cast(y, fmt.ID[np.dtype(a)]), what)[0].np()
                finally:
                    t.free_Tensor(y)
                with np.errstate(all="ignore"):
                    exact = g.astype(a) == x
                if np.dtype(a).kind == "f" or np.dtype(b).kind != "f":
                    bad = exact & (back != x)
                    if bad.any():
                        i = np.unravel_index(int(np.argmax(bad)), bad.shape)
                        raise Violation(f"{what} and back: {x[i]!r} became {g[i]!r} and {back[i]!r}")
        finally:
            t.free_Tensor(h)
    return {"desc": what + f" {x.ravel()[:6].tolist()}", "nt": x.size >= 2, "labels": [how, np.dtype(a).name + ">" + np.dtype(b).name]}


def t_half(src, env):
    """every half code: to float and double and back"""
    t = env.t
    lo = src.int(0, 255) * 256
    codes = np.arange(lo, lo + 256, dtype=np.uint16).view(np.float16)
    codes = codes[np.isfinite(codes)]
    if codes.size == 0:
        raise Discard()
    b = src.choice([np.float32, np.float64])
    h = raw(t, codes)
    c = t.Tensor_cast(h, fmt.ID[np.dtype(b)])
    t.free_Tensor(h)
    if not c:
        raise ApiError("cast: " + t.err())
    try:
        got = t.get(c)[0]
        check(got, codes, b, f"halfs from {lo:#x} to {np.dtype(b).name}")
        back = t.take(t.Tensor_cast(c, fmt.FLOAT16), "back")[0]
        if back.np().view(np.uint16).tolist() != codes.view(np.uint16).tolist():
            i = int(np.argmax(back.np().view(np.uint16) != codes.view(np.uint16)))
            raise Violation(f"half {codes.view(np.uint16)[i]:#x} to {np.dtype(b).name} and back gave {back.np().view(np.uint16)[i]:#x}")
    finally:
        t.free_Tensor(c)
    return {"desc": f"halfs {lo:#x}.. via {np.dtype(b).name}", "nt": True, "labels": ["half codes"]}


I = np.int32
F = np.float32
# op, inputs, params: which parameters may be stored in any numeric type able to hold them
TYPED = [
    ("_transpose", [(2, 3, 4)], {"permute": I([2, 0, 1])}),
    ("softmax", [(2, 3, 4)], {"dim": I(1), "smooth": np.uint8(1)}),
    ("concat", [(2, 3), (2, 1)], {"dim": I(1)}),
    ("reduce_sum", [(2, 3, 4)], {"dims": I([1]), "keep_dims": np.uint8(1)}),
    ("reduce_mean", [(2, 3, 4)], {"dims": I([1]), "keep_dims": np.uint8(0)}),
    ("_reshape", [(2, 6)], {"shape": I([3, 4])}),
    ("_reshape", [(2, 6)], {"shape": I([4, -1])}),
    ("flatten", [(2, 3, 4)], {"dim": I(1)}),
    ("hard_sigmoid", [(7,)], {"alpha": F(0.25), "beta": F(0.5)}),
    ("relu_max", [(7,)], {"max": F(3)}),
    ("leaky_relu", [(7,)], {"scale": F(0.5)}),
    ("conv2d", [(1, 2, 7, 6), (3, 2, 3, 2)], {"padding": I([[0, 0], [0, 0], [1, 2], [0, 1]]), "stride": I([1, 1, 2, 1]), "dilation": I([1, 1, 1, 2])}),
    ("pooling2d", [(1, 2, 7, 6)], {"padding": I([[0, 0], [0, 0], [0, 1], [0, 1]]), "stride": I([1, 1, 2, 1]), "ksize": I([1, 1, 3, 2]), "type": I(1)}),
    ("pad", [(2, 3), "pad"], {"padding_value": F(2)}),
    ("argmax", [(3, 4)], {"dim": I(1)}),
    ("tile", [(2, 3)], {"repeats": I([2, 1])}),
    ("squeeze", [(2, 1, 3)], {"axes": I([1])}),
    ("unsqueeze", [(2, 3)], {"axes": I([1])}),
    ("inner_prod", [(2, 3), (4, 3)], {"transpose": np.uint8(1)}),
    ("_cast", [(5,)], {"dtype": I(11)}),
    ("_limit", [(3, 4)], {"shape": I([2, -1])}),
]


def t_param(src, env):
    op, shapes, params = src.choice(TYPED)
    xs = [I([[1, 0], [0, 2]]) if s == "pad" else src.farray(s, np.float32, "ints") for s in shapes]
    alt = {}
    for k, v in params.items():
        lo, hi = float(np.min(v)), float(np.max(v))
        cand = [d for d in ALL if d != np.float16 and np.all(np.asarray(v).astype(d).astype(np.float64) == np.asarray(v).astype(np.float64))
                and (np.dtype(d).kind != "u" or lo >= 0)]
        alt[k] = np.asarray(v).astype(src.choice(cand))
    fm = {"format": "NCHW"} if op in ("conv2d", "pooling2d") else {}
    what = f"{op} with parameters stored as { {k: v.dtype.name for k, v in alt.items()} }"
    outs = []
    for p in (params, alt):
        with env.session(op, len(xs), {**p, **fm}) as s:
            outs.append(s(*xs))
    if outs[0] != outs[1]:
        raise Violation(f"{what}: {outs[1]!r} instead of {outs[0]!r}")
    return {"desc": what, "nt": True, "labels": ["param types", op]}


TARGETS = {"cast": t_cast, "half": t_half, "param": t_param}
WEIGHTS = {"cast": 6, "half": 1, "param": 2}
