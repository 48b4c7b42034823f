"""Image resampling: _resize2d, affine_sample2d, sample2d, sample2d_v2, resize_nearest_neighbor."""
import numpy as np
from tv import fmt, ops
from tv.gen import Violation, Discard
from tv.api import ApiError

ID = "P18"
RULE = ("images of generated type, rank and sizes (from 1 pixel, enlarged and reduced by exact and inexact ratios) resized and sampled with every "
        "interpolation type, affine maps (exact, rotated, far outside), with and without outer value, several runs per workbench and threads, "
        "also with arguments that must be refused; compared with a direct computation; non-trivial = at least 2 output elements and a size "
        "or position that is not the input's; distinct by arguments and data")
CASES = {"quick": 20000, "thorough": 600000}
VARIANTS = ("rel", "asan")
LINEAR, CUBIC, NEAREST, HARD = 0, 1, 2, 3
TN = ["linear", "cubic", "nearest", "hard"]
DTS = [np.float32, np.uint8, np.int8, np.int16, np.uint16, np.int32, np.uint32, np.int64, np.uint64, np.float64]


def setup(libs):
    return ops.Env(libs)


def pic(src, shape, dt):
    g = src.nprng()
    dt = np.dtype(dt)
    if dt.kind == "f":
        return (g.integers(-64, 64, shape) / 4).astype(dt) if src.bool() else (g.standard_normal(shape) * 10).astype(dt)
    i = np.iinfo(dt)
    lo, hi = max(i.min, -2 ** 40), min(i.max, 2 ** 40)
    if src.bool(0.3):
        return g.choice([lo, hi, 0], shape).astype(dt)      # overshoots
    return g.integers(lo, hi, shape, endpoint=True).astype(dt) if src.bool() else g.integers(max(lo, -20), 100, shape).astype(dt)


def exact(a, b):
    """is a / b a short binary fraction"""
    g = np.gcd(a, b)
    d = b // g
    return d & (d - 1) == 0


def near_idx(n, m, kind):
    """index read by each of m outputs of a row of n pixels; (index, allowed other index)"""
    i = np.arange(m, dtype=np.int64)
    if kind == NEAREST:
        q, tie = (2 * i + 1) * n // (2 * m), (2 * i + 1) * n % (2 * m) == 0
        alt = np.where(tie & (not exact(n, m)), q - 1, q)
    else:
        q = i * n // m
        alt = (np.float32(np.float32(n) / np.float32(m)) * i.astype(np.float32)).astype(np.int64)
    return np.clip(q, 0, n - 1), np.clip(alt, 0, n - 1)


def coeffs(f):
    A = -0.75
    c0 = ((A * (f + 1) - 5 * A) * (f + 1) + 8 * A) * (f + 1) - 4 * A
    c1 = ((A + 2) * f - (A + 3)) * f * f + 1
    c2 = ((A + 2) * (1 - f) - (A + 3)) * (1 - f) * (1 - f) + 1
    return [c0, c1, c2, 1 - c0 - c1 - c2]


def taps(pos, n, kind):
    """[(index, weight)] of positions in a row of n pixels"""
    if kind == LINEAR:
        p = np.clip(pos, 0, n - 1)
        i = np.minimum(np.floor(p), max(n - 2, 0)).astype(np.int64)
        w = p - i
        return [(i, 1 - w), (np.minimum(i + 1, n - 1), w)]
    p = np.clip(pos, 1, n - 3) if n > 3 else pos
    i = np.floor(p).astype(np.int64)
    c = coeffs(p - i)
    return [(np.clip(i - 1 + t, 0, n - 1), c[t]) for t in range(4)]


def close(got, real, dt, x, tol, what, allow=None):
    """got within tol of the real values, integers with the fraction cut"""
    dt = np.dtype(dt)
    if got.shape != real.shape:
        raise Violation(f"{what}: shape {list(got.shape)}, expected {list(real.shape)}")
    mag = float(np.abs(x.astype(np.float64)).max()) if x.size else 0.0
    if dt.kind == "f":
        tol = tol * mag + (1e-5 if dt.itemsize == 4 else 1e-12) * mag
        ok = np.abs(got.astype(np.float64) - real) <= tol + 1e-30
    else:
        i = np.iinfo(dt)
        tol = tol * mag + 1e-9 * mag + 1e-9
        lo, hi = (np.clip(np.trunc(real + s * tol), i.min, i.max) for s in (-1, 1))
        g = got.astype(np.float64)
        ok = (g >= lo) & (g <= hi)
    if allow is not None:
        ok |= allow
    if not ok.all():
        k = np.unravel_index(int(np.argmin(ok)), ok.shape)
        raise Violation(f"{what}: {int((~ok).sum())} of {ok.size} differ, first at {[int(a) for a in k]}: got {got[k]!r}, expected {real[k]!r}")


def view(x, d):
    """(batch, h, w, channels)"""
    s = x.shape
    return x.reshape(fmt.prod(s[:d]), s[d], s[d + 1], fmt.prod(s[d + 2:]))


def check_resize(got, x, d, hw, kind, what):
    want = x.shape[:d] + tuple(hw) + x.shape[d + 2:]
    if len(got) != 1 or got[0].shape != want or got[0].dtype != fmt.ID[x.dtype]:
        raise Violation(f"{what}: gave {got!r}"[:300])
    g = got[0].np()
    if not g.size:
        return
    g, v = view(g, d), view(x, d)
    h, w = v.shape[1:3]
    if (h, w) == tuple(hw):
        if not np.array_equal(g, v):
            raise Violation(f"{what}: a size equal to the input's changed values")
        return
    if kind in (NEAREST, HARD):
        (r, r2), (c, c2) = near_idx(h, hw[0], kind), near_idx(w, hw[1], kind)
        ok = np.zeros(g.shape, bool)
        for a in (r, r2):
            for b in (c, c2):
                ok |= g == v[:, a][:, :, b]
        if not ok.all():
            k = np.unravel_index(int(np.argmin(ok)), ok.shape)
            raise Violation(f"{what}: at {[int(a) for a in k]} got {g[k]!r}, expected {v[k[0], r[k[1]], c[k[2]], k[3]]!r}")
        return
    ty = taps((np.arange(hw[0]) + 0.5) * h / hw[0] - 0.5, h, kind)
    tx = taps((np.arange(hw[1]) + 0.5) * w / hw[1] - 0.5, w, kind)
    f = v.astype(np.float64)
    f = sum(f[:, i] * c[None, :, None, None] for i, c in ty)
    f = sum(f[:, :, i] * c[None, None, :, None] for i, c in tx)
    close(g, f, x.dtype, x, 8e-5 if kind == LINEAR else 1e-8, what)


def check_affine(got, x, d, hw, A, kind, outer, what, slack):
    want = x.shape[:d] + tuple(hw) + x.shape[d + 2:]
    if len(got) != 1 or got[0].shape != want or got[0].dtype != fmt.ID[x.dtype]:
        raise Violation(f"{what}: gave {got!r}"[:300])
    g = got[0].np()
    if not g.size:
        return
    g, v = view(g, d), view(x, d)
    h, w = v.shape[1:3]
    X, Y = np.meshgrid(np.arange(hw[1]), np.arange(hw[0]))
    A = A.astype(np.float64)
    px, py = A[0, 0] * X + A[0, 1] * Y + A[0, 2], A[1, 0] * X + A[1, 1] * Y + A[1, 2]
    # positions too close to a place where the result jumps
    eps = slack * (np.abs(px) + np.abs(py) + 1)
    edge = lambda p, q: np.abs(p - q) <= eps
    skip = np.zeros(px.shape, bool)
    if kind in (NEAREST, HARD):
        for p in (px, py):
            b = p + 0.5 if kind == NEAREST else p
            skip |= np.abs(b - np.round(b)) <= eps
        half = lambda p: np.where(p >= 0, np.floor(p + 0.5), np.ceil(p - 0.5))
        ix, iy = (half(p) if kind == NEAREST else np.trunc(p) for p in (px, py))
        inner = (ix >= 0) & (ix < w) & (iy >= 0) & (iy < h)
        f = v[:, np.clip(iy, 0, h - 1).astype(np.int64), np.clip(ix, 0, w - 1).astype(np.int64)].astype(np.float64)
    elif kind == LINEAR:
        inner = (px >= 0) & (px <= w - 1) & (py >= 0) & (py <= h - 1)
        if outer is not None:
            skip = edge(px, 0) | edge(px, w - 1) | edge(py, 0) | edge(py, h - 1)
    else:
        inner = (px >= 1) & (px < w - 3) & (py >= 1) & (py < h - 3)
        if outer is not None:
            skip = edge(px, 1) | edge(px, w - 3) | edge(py, 1) | edge(py, h - 3)
    if kind in (LINEAR, CUBIC):
        src = v.astype(np.float64)
        f = sum(src[:, iy, ix] * (cy * cx)[None, :, :, None] for iy, cy in taps(py, h, kind) for ix, cx in taps(px, w, kind))
    if slack == 0:
        skip[:] = False
    if outer is not None:
        f = np.where(inner[None, :, :, None], f, float(x.dtype.type(outer)))
    if kind in (NEAREST, HARD):
        ok = (g.astype(np.float64) == f) | skip[None, :, :, None]
        if not ok.all():
            k = np.unravel_index(int(np.argmin(ok)), ok.shape)
            raise Violation(f"{what}: {int((~ok).sum())} of {ok.size} differ, at {[int(a) for a in k]} (position {px[k[1], k[2]]}, {py[k[1], k[2]]}) "
                            f"got {g[k]!r}, expected {f[k]!r}")
        return
    rough = 8e-5 if kind == LINEAR else 1e-8
    # the slope is at most a few times the range of the values
    close(g, f, x.dtype, np.append(x.reshape(-1), x.dtype.type(outer or 0)), rough + 8 * float(eps.max()) * (slack > 0), what, skip[None, :, :, None])


def image(src):
    """shape and first image dimension"""
    r = src.weighted([(2, 2), (4, 3), (4, 4), (1, 5)])
    d = src.raw(r - 1)
    hw = [src.weighted([(2, 1), (2, 2), (2, 3), (2, 4), (6, src.int(1, 12)), (2, src.int(1, 40))]) for _ in range(2)]
    s = [src.int(1, 3) for _ in range(r)]
    if src.bool(0.03):
        s[src.choice([k for k in range(r) if k not in (d, d + 1)] or [d])] = 0
    s[d:d + 2] = [0 if v == 0 else w for v, w in zip(s[d:d + 2], hw)]
    return tuple(s), d


def target(src, n):
    return src.weighted([(1, n), (2, 2 * n), (1, 4 * n), (2, max(1, n // 2)), (3, src.int(1, 12)), (3, src.int(1, n + 8)), (1, 1), (1, 3 * n)])


def reject(ses, xs, what):
    try:
        got = ses(*xs)
    except ApiError:
        return
    if any(f.np().size for f in got):
        raise Violation(f"{what}: a result {[f.shape for f in got]} instead of an error")


def size_t(src, v):
    v = [int(a) for a in v]
    return np.asarray(v, src.weighted([(5, np.int32), (1, np.int64), (1, np.float32)] + ([(1, np.int16)] if max(map(abs, v), default=0) < 30000 else [])))


def t_resize(src, env):
    kind = src.choice([LINEAR, LINEAR, CUBIC, NEAREST, HARD])
    dt = src.choice(DTS[:2] + DTS)
    th = src.choice([None, None, 1, 2, 4])
    params = {} if kind == LINEAR and src.bool() else {"type": np.int32(kind)}
    what = f"_resize2d {TN[kind]} {np.dtype(dt).name} threads {th}"
    desc, nt, labels = what, False, [TN[kind]]
    const = src.bool(0.3)
    nrun = 1 if const else src.weighted([(4, 1), (3, 2), (1, 4)])
    s, d = image(src)

    def draw(s, d):
        hw = [target(src, n) for n in s[d:d + 2]]
        z = [-1] * len(s)
        if kind != CUBIC and 0 not in s and src.bool(0.2):
            z = list(s)
        z[d:d + 2] = hw
        return hw, z
    hw, z = draw(s, d)
    with env.session("_resize2d", 2, params, {1: size_t(src, z)} if const else {}, threads=th) as ses:
        for r in range(nrun):
            if r:
                s, d = image(src)
                hw, z = draw(s, d)
            x = pic(src, s, dt)
            run = f"{what} run {r} {list(s)} to {z}"
            xs = [x] if const else [x, size_t(src, z)]
            if not const and src.bool(0.12):
                b, how = list(z), src.choice(["zero", "long", "short", "one", "gap", "none", "three", "empty"])
                y = x
                if how == "zero":
                    b[src.raw(len(b))] = 0
                elif how == "long":
                    b.append(-1)
                elif how == "short":
                    b = b[:-1] if len(b) > 2 else []
                elif how == "one":
                    b = [-1] * len(s)
                    b[d] = s[d] + 1
                elif how == "gap" and len(s) > 2:
                    b = [-1] * len(s)
                    b[0], b[2] = s[0] + 1, s[2] + 2
                elif how == "three" and len(s) > 2:
                    b = [-1] * len(s)
                    for i in range(3):
                        b[i] = s[i] + 1
                elif how == "empty":
                    e = list(s)
                    e[d + src.raw(2)] = 0
                    y = np.zeros(e, dt)
                    b = [-1] * len(s)
                    b[d:d + 2] = [2, 3]
                else:
                    b = [-1] * len(s)
                reject(ses, [y, size_t(src, b)], f"{run} with {list(y.shape)} to {b}")
                labels.append("refused " + how)
                desc += f" bad {how}"
            if 0 in s[d:d + 2]:
                if all(n > 0 for n in hw):
                    reject(ses, xs, run)
                continue
            check_resize(ses(*xs), x, d, hw, kind, run)
            nt |= x.size > 0 and fmt.prod(hw) > 1 and tuple(hw) != s[d:d + 2]
            desc += f" {list(s)}->{z}"
    return {"desc": desc, "nt": bool(nt), "labels": labels}


def affine(src, h, w):
    """matrix and how inexact positions may be"""
    k = src.weighted([(2, "identity"), (4, "exact"), (3, "real"), (2, "scale"), (2, "flip"), (1, "far")])
    A = np.eye(3)
    q = lambda lo, hi, den: src.int(lo * den, hi * den) / den
    if k == "exact":
        A[:2] = [[q(-2, 2, 4), q(-2, 2, 4), q(-4, 8, 4)] for _ in range(2)]
    elif k == "scale":
        A[0, 0] = A[1, 1] = src.choice([0.5, 0.25, 2, 1, 1.5, 0.75])
        A[:2, 2] = [q(-3, 3, 2), q(-3, 3, 2)]
    elif k == "flip":
        A[:2] = src.choice([[[-1, 0, w - 1], [0, 1, 0]], [[1, 0, 0], [0, -1, h - 1]], [[0, 1, 0], [1, 0, 0]], [[0, -1, w - 1], [1, 0, 0]]])
    elif k == "far":
        A[:2, 2] = [q(-1000, 1000, 1), q(-1000, 1000, 1)]
    elif k == "real":
        t = src.int(0, 628) / 100
        z = src.int(20, 300) / 100
        A[:2] = [[z * np.cos(t), -z * np.sin(t), src.int(-300, 1200) / 97], [z * np.sin(t), z * np.cos(t), src.int(-300, 1200) / 97]]
        return A.astype(np.float32), 1e-5, k
    return A.astype(np.float32), 0, k


def t_affine(src, env):
    kind = src.choice([LINEAR, LINEAR, CUBIC, NEAREST, HARD])
    dt = src.choice(DTS[:2] + DTS)
    th = src.choice([None, None, 1, 2, 4])
    s, d = image(src)
    rank = len(s)
    neg = src.bool(0.4)
    outer = None
    if src.bool(0.5):
        outer = src.choice([0, 1, 77, 0.5, -3] if np.dtype(dt).kind == "f" else [0, 1, 77, 127])
    params = {"type": np.int32(kind), "dim": np.int32(d - rank if neg else d)}
    if outer is not None:
        params["outer_value"] = np.float32(outer)
    consts = {}
    nrun = src.weighted([(4, 1), (3, 2), (1, 4)])
    what = f"affine_sample2d {TN[kind]} {np.dtype(dt).name} dim {params['dim']} outer {outer} threads {th}"
    desc, nt, labels = what, False, [TN[kind]]
    hw = [target(src, n) for n in s[d:d + 2]]
    A, slack, k = affine(src, *s[d:d + 2])
    if src.bool(0.3):
        consts[1] = size_t(src, hw)
    if src.bool(0.3):
        consts[2] = A
    with env.session("affine_sample2d", 3, params, consts, threads=th) as ses:
        for r in range(nrun):
            if r:
                s, _ = image(src)
                d = (len(s) + int(params["dim"]) if neg else int(params["dim"]))
                if not 0 <= d < len(s) - 1:
                    z = [np.asarray([2, 2], np.int32)] * (1 not in consts) + [np.eye(3, dtype=np.float32)] * (2 not in consts)
                    reject(ses, [np.ones(s, dt)] + z, f"{what} of {list(s)}")
                    labels.append("refused dim")
                    continue
                s = list(s)
                for j in (d, d + 1):
                    s[j] = src.int(1, 9)
                s = tuple(s)
                if 1 not in consts:
                    hw = [target(src, n) for n in s[d:d + 2]]
                if 2 not in consts:
                    A, slack, k = affine(src, *s[d:d + 2])
            x = pic(src, s, dt)
            xs = [x] + ([size_t(src, hw)] if 1 not in consts else []) + ([A if src.bool(0.8) else A.astype(np.float64)] if 2 not in consts else [])
            run = f"{what} run {r} {list(s)} to {hw} by {A[:2].tolist()}"
            if src.bool(0.1) and not consts:
                how = src.choice(["shape", "count", "negative", "empty"])
                b = list(xs)
                if how == "shape":
                    b[2] = src.choice([A[:2], A.reshape(-1), np.ones((3, 4), np.float32), np.float32(1)])
                elif how == "count":
                    b[1] = np.asarray(src.choice([[3], [3, 3, 3], []]), np.int32)
                elif how == "negative":
                    b[1] = np.asarray(src.choice([[-1, 3], [3, -2]]), np.int32)
                else:
                    e = list(s)
                    e[d + src.raw(2)] = 0
                    b[0] = np.zeros(e, dt)
                reject(ses, b, f"{run} bad {how}")
                labels.append("refused " + how)
            if 0 in s[d:d + 2]:
                reject(ses, xs, run)
                continue
            check_affine(ses(*xs), x, d, hw, A, kind, outer, run, slack)
            nt |= x.size > 0 and fmt.prod(hw) > 1 and (k != "identity" or tuple(hw) != s[d:d + 2])
            desc += f" {list(s)}->{hw} {A[:2].tolist()}"
            labels.append(k)
    return {"desc": desc, "nt": bool(nt), "labels": labels}


def t_sample(src, env):
    op = src.choice(["sample2d", "sample2d_v2", "resize_nearest_neighbor", "resize_nearest_neighbor"])
    dt = src.choice(DTS[:2] + DTS)
    s, d = image(src)
    if 0 in s:
        raise Discard
    th = src.choice([None, 2, 4])
    x = pic(src, s, dt)
    h, w = s[d:d + 2]
    rank = len(s)
    desc = f"{op} {np.dtype(dt).name}{list(s)} dim {d} threads {th}"
    if op == "sample2d":
        z = np.float32(src.choice([1, 2, 0.5, 3, 1.5, 0.25, 4, 0.3, 0.7, 1.1]))
        kind = src.choice([LINEAR, CUBIC, NEAREST])
        params = {"scale": z}
        if kind != NEAREST or src.bool():
            params["type"] = np.int32(kind)
        if d != rank - 2 or src.bool():
            params["dim"] = np.int32(src.choice([d, d - rank]))
        what = f"{desc} {TN[kind]} by {z} {sorted(params)}"
        hw = [int(np.floor(np.float32(n) * z)) for n in (h, w)]
        inv = np.float32(1) / z
        A = np.diag([inv, inv, 1]).astype(np.float32)
        with env.session(op, 1, params, threads=th) as ses:
            for _ in range(src.int(1, 2)):
                got = ses(x)
                check_affine(got, x, d, hw, A, kind, 0, what, 0 if exact(1, int(1)) and float(inv) == 1 / float(z) else 1e-6)
        return {"desc": what, "nt": fmt.prod(hw) > 1, "labels": [op]}
    if op == "sample2d_v2":
        kind = src.choice([LINEAR, CUBIC, NEAREST, HARD])
        params = {} if kind == HARD and src.bool() else {"type": np.int32(kind)}
        z = np.ones(rank, np.float32)
        z[d:d + 2] = [src.choice([1, 2, 0.5, 3, 1.5, 0.25, 0.7]) for _ in range(2)]
        hw = [int(np.floor(np.float32(n) * v)) for n, v in zip((h, w), z[d:d + 2])]
        what = f"{desc} {TN[kind]} by {z.tolist()}"
        if kind == CUBIC and (hw[0] == h) != (hw[1] == w):
            raise Discard           # which two dims are the image is not unique
        xs = [x, z.astype(src.choice([np.float32, np.float64])) if src.bool(0.9) else z]
        const = src.bool(0.4)
        with env.session(op, 2, params, {1: xs[1]} if const else {}, threads=th) as ses:
            for _ in range(src.int(1, 2)):
                if 0 in hw:
                    reject(ses, xs[:1] if const else xs, what)
                    continue
                check_resize(ses(*(xs[:1] if const else xs)), x, d, hw, kind, what)
        return {"desc": what, "nt": fmt.prod(hw) > 1 and hw != [h, w], "labels": [op]}
    align = src.choice([None, 0, 1])
    params = {"dim": np.int32(d)}
    if align is not None:
        params["align_corners"] = np.int32(align)
    hw = [target(src, n) for n in (h, w)]
    what = f"{desc} align {align}"
    const = src.bool(0.3)
    with env.session(op, 2, params, {1: size_t(src, hw)} if const else {}, threads=th) as ses:
        for r in range(1 if const else src.int(1, 3)):
            if r:
                hw = [target(src, n) for n in (h, w)]
            if not const and src.bool(0.2):
                how = src.choice(["zero", "count", "rank"])
                y = x if how != "rank" else np.ones(d + 1, dt) if d == 0 else np.ones((2,) * (d + 1), dt)
                b = np.asarray({"zero": [0, 3], "count": [3], "rank": [2, 2]}[how], np.int32)
                reject(ses, [y, b], f"{what} of {list(y.shape)} to {b.tolist()}")
            got = ses(*([x] if const else [x, size_t(src, hw)]))
            if not align:
                check_resize(got, x, d, hw, NEAREST, f"{what} to {hw}")
            else:
                g = view(got[0].np(), d) if got[0].shape == s[:d] + tuple(hw) + s[d + 2:] else None
                if g is None:
                    raise Violation(f"{what} to {hw}: {got!r}"[:300])
                v, idx = view(x, d), []
                for n, m in ((h, hw[0]), (w, hw[1])):
                    i = np.arange(m, dtype=np.int64)
                    den = max(m - 1, 1)
                    q = (2 * i * (n - 1) + den) // (2 * den) if m > 1 else 0 * i
                    tie = (2 * i * (n - 1) + den) % (2 * den) == 0
                    idx.append((q, np.where(tie & (m > 1) & (not exact(n - 1, den)), q - 1, q)))
                ok = np.zeros(g.shape, bool)
                for a in idx[0]:
                    for b in idx[1]:
                        ok |= g == v[:, a][:, :, b]
                if not ok.all():
                    k = np.unravel_index(int(np.argmin(ok)), ok.shape)
                    raise Violation(f"{what} to {hw}: at {[int(a) for a in k]} got {g[k]!r}, expected {v[k[0], idx[0][0][k[1]], idx[1][0][k[2]], k[3]]!r}")
    return {"desc": f"{what} {hw}", "nt": fmt.prod(hw) > 1 and hw != [h, w], "labels": [op, f"align {align}"]}


TARGETS = {"resize": t_resize, "affine": t_affine, "sample": t_sample}
WEIGHTS = {"resize": 4, "affine": 4, "sample": 3}
