"""Image pre-processing: ImageFilter pipelines (also exported and bound to inputs) and the image operators they are made of."""
import ctypes as C
import numpy as np
from tv import fmt, ops
from tv.fmt import Node, param, enc_module
from tv.gen import Violation, Discard
from tv.api import ApiError
from props.P18 import check_resize, check_affine, close, reject, pic, LINEAR, CUBIC, NEAREST, DTS, TN

ID = "P19"
RULE = ("pipelines of 0 to 6 generated steps built, run, extended, cleared, run again, exported as a module and bound to an input of a model, on "
        "gray, color and batched images from 1 pixel up in several number types; every step is checked against a direct computation on what the "
        "pipeline of the steps before it gave; and the image operators alone on all number types and ranks, also with images they must refuse; "
        "non-trivial = at least one step that changes at least 2 values, or an operator on at least 2 values; distinct by steps and images")
CASES = {"quick": 5000, "thorough": 150000}
VARIANTS = ("rel", "asan")
F32 = np.float32
BGR = [F32(0.114), F32(0.587), F32(0.299)]


def setup(libs):
    e = ops.Env(libs)
    t = e.t
    x = param("x")
    e.wb = t.bench(t.module(enc_module([x], [Node("abs", [x], "y")])))
    t.Workbench_setup_context(e.wb)
    return e


def same(g, want, what):
    if len(g) != 1 or g[0].shape != want.shape or g[0].dtype != fmt.ID[want.dtype]:
        raise Violation(f"{what}: gave {g!r}, expected {want.dtype.name}{list(want.shape)}"[:400])
    g = g[0].np()
    bad = ~((g == want) | ((g != g) & (want != want)))
    if bad.any():
        k = np.unravel_index(int(np.argmax(bad)), bad.shape)
        raise Violation(f"{what}: {int(bad.sum())} of {bad.size} differ, at {[int(i) for i in k]} got {g[k]!r}, expected {want[k]!r}")


def crop(x, hw, what=None):
    """center crop or zero pad of dims 1 and 2"""
    for d, m in ((1, hw[0]), (2, hw[1])):
        n = x.shape[d]
        if m <= n:
            s = (n - m) // 2
            x = x.take(np.arange(s, s + m), d)
        else:
            p = [(0, 0)] * x.ndim
            p[d] = ((m - n) // 2, m - n - (m - n) // 2)
            x = np.pad(x, p)
    return x


def gray(x, scale):
    f = sum(x[..., j].astype(np.float64) * float(s) for j, s in enumerate(scale))
    return np.asarray(f)[..., None]


def norm(x, eps):
    """per image of the batch; eps None: prewhiten"""
    f = x.astype(np.float64).reshape(x.shape[0], -1)
    m, sd = f.mean(1, keepdims=True), f.std(1, keepdims=True)
    den = np.maximum(sd, 1 / np.sqrt(f.shape[1])) if eps is None else sd + float(F32(eps))
    with np.errstate(all="ignore"):
        return ((f - m) / den).reshape(x.shape), den


def check_norm(g, x, eps, what):
    want, den = norm(x, eps)
    g = g[0]
    if g.shape != x.shape or g.dtype != fmt.ID[x.dtype]:
        raise Violation(f"{what}: gave {g!r}"[:300])
    mag = float(np.abs(x.astype(np.float64)).max())
    if not (den > mag * 1e-5).all():
        return      # differences of rounding divided by almost nothing
    e = 1e-6 if x.dtype == F32 else 1e-12
    tol = e * (mag / den.reshape((-1,) + (1,) * (x.ndim - 1)) * 4 + np.abs(want) + 1) * 4
    gv = g.np().astype(np.float64)
    bad = ~(np.abs(gv - want) <= tol)
    if bad.any():
        k = np.unravel_index(int(np.argmax(bad)), bad.shape)
        raise Violation(f"{what}: at {[int(i) for i in k]} got {gv[k]!r}, expected {want[k]!r}")


def letterbox_args(x, hw):
    s = min(F32(hw[1]) / F32(x.shape[2]), F32(hw[0]) / F32(x.shape[1]))
    z = F32(1) / F32(s)
    frac = float(s)
    exact = float(z) * frac == 1.0 and (float(z) * 65536).is_integer()
    return np.diag([z, z, F32(1)]).astype(F32), 0 if exact else 1e-6


def scale_hw(n, h, w):
    return (n * h // w, n) if h > w else (n, n * w // h)


# -- steps: draw(src) -> step; step: (name, args)

def draw_step(src, first_float):
    k = src.weighted([(2 if first_float else 1, "to_float"), (2, "scale"), (2, "sub_mean"), (2, "div_std"), (3, "resize"), (2, "resize_scalar"),
                      (3, "center_crop"), (2, "channel_swap"), (1, "to_chw"), (1, "prewhiten"), (3, "letterbox"), (2, "divided"),
                      (2, "force_color"), (2, "force_gray"), (1, "norm_image")])
    n = lambda hi=14: src.weighted([(1, 1), (6, src.int(1, hi))])
    v = lambda: src.choice([0.5, 2, 1, -1, 1 / 255, 0.017, 104, 117.5, 3])
    if k == "scale":
        return k, (v(),)
    if k in ("sub_mean", "div_std"):
        return k, tuple(v() for _ in range(src.weighted([(5, 3), (3, 1), (1, 2), (1, 4)])))
    if k == "resize":
        return k, (n(), n(), src.choice([None, LINEAR, CUBIC, NEAREST]))
    if k == "resize_scalar":
        return k, (n(), src.choice([None, LINEAR, CUBIC, NEAREST]))
    if k == "center_crop":
        return k, (n(), n())
    if k == "channel_swap":
        return k, tuple(src.weighted([(5, [2, 1, 0]), (1, [0]), (1, [0, 0]), (1, [1, 0, 2, 2]), (1, [3, 2, 1, 0]), (1, [0, 1, 2])]))
    if k == "letterbox":
        return k, (n(20), n(20), src.choice([0, 1, 77, 127]), src.choice([None, LINEAR, CUBIC, NEAREST]))
    if k == "divided":
        return k, (n(9), n(9), src.choice([0, 1, 77]))
    if k == "force_gray":
        return k, src.weighted([(3, ()), (3, (0.299, 0.587, 0.114)), (1, (0.25, 0.75)), (1, (0.5, 0.25, 0.125, 0.125)), (1, "null"), (1, "len 0"), (1, (1.0,))])
    if k == "norm_image":
        return k, (src.choice([1e-5, 1.0, 0.25]),)
    return k, ()


def add_step(t, f, step):
    k, a = step
    arr = lambda v, ty: ((ty * len(v))(*v), len(v))
    if k in ("to_float", "to_chw", "prewhiten", "force_color"):
        ok = getattr(t, "ImageFilter_" + k)(f)
    elif k in ("scale", "norm_image"):
        ok = getattr(t, "ImageFilter_" + k)(f, float(a[0]))
    elif k in ("sub_mean", "div_std"):
        ok = getattr(t, "ImageFilter_" + k)(f, *arr(a, C.c_float))
    elif k in ("resize", "resize_scalar", "letterbox"):
        fn, args = "ImageFilter_" + k, a[:-1]
        if a[-1] is not None:
            fn, args = fn + "_v2", a
        ok = getattr(t, fn)(f, *[float(v) if k == "letterbox" and i == 2 else v for i, v in enumerate(args)])
    elif k == "center_crop":
        ok = t.ImageFilter_center_crop(f, *a)
    elif k == "channel_swap":
        ok = t.ImageFilter_channel_swap(f, *arr(a, C.c_int32))
    elif k == "divided":
        ok = t.ImageFilter_divided(f, a[0], a[1], float(a[2]))
    elif a == ():
        ok = t.ImageFilter_force_gray(f)
    elif a == "null":
        ok = t.ImageFilter_force_gray_v2(f, None, 0)
    elif a == "len 0":
        ok = t.ImageFilter_force_gray_v2(f, (C.c_float * 1)(9), 0)
    else:
        ok = t.ImageFilter_force_gray_v2(f, *arr(a, C.c_float))
    if not ok:
        raise Violation(f"adding the step {step} failed: {t.err()[:200]}")


def must_refuse(step, x):
    k, a = step
    c = x.shape[3]
    if k in ("sub_mean", "div_std"):
        return len(a) != c and len(a) != 1 and c != 1
    if k == "channel_swap":
        return max(a) >= c
    if k in ("prewhiten", "norm_image"):
        return x.dtype.kind != "f"
    if k == "force_color":
        return c not in (1, 3)
    if k == "force_gray":
        return c != 1 and c != (len(a) if isinstance(a, tuple) and a else 3)
    return False


def check_step(step, x, g, what):
    """g: fields given by the pipeline up to this step, x: 4-D array given by the one before"""
    k, a = step
    if k == "to_float":
        return same(g, x.astype(F32), what)
    if k in ("scale", "sub_mean", "div_std"):
        v = np.asarray(a, F32)
        if k == "div_std":
            want = x.astype(np.float64) / v
        else:
            want = x.astype(np.float64) * v if k == "scale" else x.astype(np.float64) - v
        mag = max(float(np.abs(x.astype(np.float64)).max()), float(np.abs(v).max()) if k == "sub_mean" else 0) if x.size else 0
        mag *= float(np.abs(1 / v).max()) if k == "div_std" else float(np.abs(v).max()) if k == "scale" else 1
        return ops.check(g, want, 1e-6, 1e-6 * mag, what, dtype=fmt.ID[np.dtype(F32)])
    if k in ("resize", "resize_scalar"):
        hw = (a[1], a[0]) if k == "resize" else scale_hw(a[0], x.shape[1], x.shape[2])
        return check_resize(g, x, 1, hw, a[-1] or LINEAR, what)
    if k == "center_crop":
        return same(g, crop(x, (a[1], a[0])), what)
    if k == "channel_swap":
        return same(g, x[..., list(a)], what)
    if k == "to_chw":
        return same(g, x.transpose(0, 3, 1, 2), what)
    if k == "letterbox":
        hw = (a[1], a[0])
        A, slack = letterbox_args(x, hw)
        return check_affine(g, x, 1, hw, A, a[3] or LINEAR, a[2], what, slack)
    if k == "divided":
        w, h, p = a
        pad = [(0, 0), (0, -x.shape[1] % h), (0, -x.shape[2] % w), (0, 0)]
        return same(g, np.pad(x, pad, constant_values=x.dtype.type(p)), what)
    if k == "force_color":
        return same(g, np.repeat(x, 3, 3) if x.shape[3] == 1 else x, what)
    if k == "force_gray":
        if x.shape[3] == 1:
            return same(g, x, what)
        return check_gray(g, x, a if isinstance(a, tuple) and a else BGR, what)
    return check_norm(g, x, None if k == "prewhiten" else a[0], what)


def check_gray(g, x, s, what):
    if len(g) != 1 or g[0].shape != x.shape[:-1] + (1,) or g[0].dtype != fmt.ID[x.dtype]:
        raise Violation(f"{what}: gave {g!r}"[:300])
    close(g[0].np(), gray(x, np.asarray(s, F32)), x.dtype, x, 1e-5 if x.dtype != np.float64 else 1e-6, what)


def new_filter(t, steps):
    f = t.new_ImageFilter(t.cpup)
    if not f:
        raise Violation("new_ImageFilter: " + t.err())
    for s in steps:
        add_step(t, f, s)
    return f


def run_filter(t, f, x):
    h = t.new(x)
    try:
        r = t.ImageFilter_run(f, h)
        if not r:
            raise ApiError(t.err())
        g = t.take(r)
        if t.peek(h) != fmt.t(x):
            raise Violation(f"the run of a filter modified its image {ops.ndesc(x)}")
        return g
    finally:
        t.free_Tensor(h)


def nhwc(x):
    s = x.shape
    if len(s) == 1:
        return x.reshape(1, s[0], 1, 1)
    if len(s) == 2:
        return x.reshape(1, s[0], s[1], 1)
    if len(s) == 3:
        return x.reshape((1,) + s)
    return x.reshape(s[:3] + (fmt.prod(s[3:]),))


def image(src, low=1, high=5):
    r = src.weighted([(w, k) for w, k in ((1, 1), (2, 2), (5, 3), (4, 4), (1, 5)) if low <= k <= high])
    n = lambda: src.weighted([(1, 1), (1, 2), (6, src.int(1, 12)), (1, src.int(1, 30))])
    c = src.weighted([(6, 3), (4, 1), (1, 2), (1, 4)])
    b = src.weighted([(3, 1), (2, 2), (1, 3)])
    s = {1: (n(),), 2: (n(), n()), 3: (n(), n(), c), 4: (b, n(), n(), c), 5: (b, n(), n(), 1, c)}[r]
    dt = src.weighted([(8, np.uint8), (1, F32), (1, np.int32), (1, np.float64), (1, np.int16)])
    x = src.nprng().integers(0, 256, s).astype(dt)
    if src.bool(0.15):
        x = src.nprng().choice([0, 255], s).astype(dt)
    if np.dtype(dt).kind == "f":
        x = x + dt(0.25)
    return x


class Pipe:
    """checks runs of one list of steps, with the pipelines of its first steps"""

    def __init__(self, env, steps):
        self.t, self.steps = env.t, list(steps)
        self.pre = [new_filter(env.t, steps[:k]) for k in range(1, len(steps) + 1)]

    def free(self):
        for f in self.pre:
            self.t.free_ImageFilter(f)

    def expect(self, x, what):
        """fields the pipeline must give; None when it must refuse x, or ... when unspecified"""
        if not self.steps:
            return [fmt.t(x)], False
        cur, nt = nhwc(x).astype(np.uint8), False
        if 0 in cur.shape:
            return ..., False
        for k, s in enumerate(self.steps):
            w = f"{what}: step {k} {s} on {ops.ndesc(cur)}"
            try:
                g = run_filter(self.t, self.pre[k], x)
            except ApiError as e:
                if must_refuse(s, cur):
                    return None, False
                raise Violation(f"{w} failed: {str(e)[:250]}")
            if must_refuse(s, cur):
                raise Violation(f"{w} gave {g!r} instead of an error"[:400])
            if s[0] in ("sub_mean", "div_std") and cur.shape[3] == 1 and len(s[1]) != 1:
                pass                # a gray image spreads over the given channels
            check_step(s, cur, g, w)
            y = g[0].np()
            nt |= y.size > 1 and (y.shape != cur.shape or not np.array_equal(y, cur))
            cur = y
            if y.dtype.kind == "f" and not (np.abs(y) < 1e9).all():
                return ..., nt
        return g, nt


def t_pipe(src, env):
    t = env.t
    steps, labels, desc, nt = [], [], "", False
    f = new_filter(t, [])
    pipe = None
    try:
        for _ in range(src.int(1, 3)):
            if steps and src.bool(0.2):
                if not t.ImageFilter_clear(f):
                    raise Violation("ImageFilter_clear: " + t.err())
                steps = []
                labels.append("cleared")
            for _ in range(src.weighted([(1, 0), (3, 1), (4, 2), (3, 3), (1, 5)])):
                if len(steps) >= 6 or (steps and steps[-1][0] == "to_chw"):
                    break
                s = draw_step(src, not any(k[0] in ("to_float", "scale", "sub_mean", "div_std") for k in steps))
                add_step(t, f, s)
                steps.append(s)
            if src.bool(0.3) and not t.ImageFilter_compile(f):
                raise Violation(f"compile of {steps}: {t.err()[:200]}")
            if pipe:
                pipe.free()
            pipe = Pipe(env, steps)
            how = src.weighted([(5, "run"), (2, "module"), (3, "bind"), (1, "bind then change")])
            low, high = (1, 5) if how == "run" else (4, 4) if how == "module" else (2, 4)
            labels += [how] + [s[0] for s in steps]
            net = None
            if how == "module":
                m = t.ImageFilter_module(f)
                if not m:
                    raise Violation(f"module of {steps}: {t.err()[:200]}")
                net = t.bench(m)
                t.free_Module(m)
            elif how != "run":
                x0, x1 = param("x0"), param("x1")
                slot = src.raw(2)
                y = [Node("_copy", [(x0, x1)[slot]], "y"), Node("abs", [(x0, x1)[1 - slot]], "z")]
                m = t.module(enc_module([x0, x1], y))
                net = t.bench(m)
                t.free_Module(m)
                ok = t.Workbench_bind_filter(net, slot, f) if src.bool() else t.Workbench_bind_filter_by_name(net, f"x{slot}".encode(), f)
                if not ok:
                    raise Violation(f"binding the filter {steps}: {t.err()[:200]}")
                if src.bool(0.3):
                    c = t.Workbench_clone(net)
                    if not c:
                        raise Violation(f"clone of a workbench with the filter {steps}: {t.err()[:200]}")
                    t.free_Workbench(net)
                    net = c
                    labels.append("clone")
                if how == "bind then change":
                    t.ImageFilter_clear(f) if src.bool() else t.ImageFilter_scale(f, 7.0)
            for _ in range(src.int(1, 3)):
                x = image(src, low, high)
                what = f"{how} {steps} on {ops.ndesc(x)}"
                want, changed = pipe.expect(x, what)
                if want is ...:
                    continue
                nt |= changed
                try:
                    if how == "run":
                        g = run_filter(t, f, x)
                    else:
                        if how == "module":
                            t.set_input(net, 0, x)
                        else:
                            t.set_input(net, slot, x)
                            o = np.asarray([1, -2, 3], F32)
                            t.set_input(net, 1 - slot, o)
                        t.run(net)
                        g = t.output(net, 0)
                        if how != "module" and t.output(net, 1) != [fmt.t(np.abs(o))]:
                            raise Violation(f"{what}: another input changed")
                        if not steps:
                            # an input of a model with a filter is an image of its type
                            want = g if how == "module" else want
                except ApiError as e:
                    if want is not None:
                        raise Violation(f"{what} failed: {str(e)[:300]}")
                    continue
                if want is None:
                    raise Violation(f"{what} gave {g!r} where the filter itself gives an error"[:400])
                if g != want:
                    raise Violation(f"{what}: gave {g!r}, the steps one after the other gave {want!r}"[:600])
                desc += f" {ops.ndesc(x)}"
            desc += f" {how} {steps}"
            if net is not None:
                t.free_Workbench(net)
            if how == "bind then change":
                break
    finally:
        t.free_ImageFilter(f)
        if pipe:
            pipe.free()
    return {"desc": desc.strip(), "nt": nt, "labels": labels}


def small(src, s, dt):
    """values whose weighted means stay in range"""
    dt = np.dtype(dt)
    g = src.nprng()
    if dt.kind == "f":
        return (g.standard_normal(s) * 50).astype(dt)
    i = np.iinfo(dt)
    return g.integers(max(i.min // 2, -2 ** 30), min(i.max, 2 ** 30), s, endpoint=True).astype(dt)


def t_op(src, env):
    op = src.choice(["_nhwc_center_crop2d", "_nhwc_scale_resize2d", "_nhwc_letterbox", "divided", "_limit", "force_color", "force_gray",
                     "prewhiten", "norm_image"])
    dt = src.choice(DTS)
    n = lambda hi=14: src.int(1, hi)
    params = {}
    kind, scale, outer = LINEAR, None, 0
    it = lambda v: np.asarray(v, src.choice([np.int32, np.int32, np.int64, F32]))
    if op in ("_nhwc_scale_resize2d", "_nhwc_letterbox"):
        size = [n() for _ in range(src.int(1, 2))]
        params["size"] = it(size)
        if src.bool():
            kind = src.choice([LINEAR, CUBIC, NEAREST])
            params["type"] = np.int32(kind)
        if op == "_nhwc_letterbox" and src.bool():
            outer = src.choice([1, 77])
            params["outer_value"] = F32(outer)
    elif op == "_nhwc_center_crop2d":
        size = [n(), n()]
        params["size"] = it(size)
    elif op == "divided":
        size = [src.weighted([(2, 1), (3, n(9))]) for _ in range(src.int(1, 4))]
        params["size"] = it(size)
        if src.bool():
            outer = src.choice([1, 77])
            params["padding_value"] = F32(outer)
    elif op == "_limit":
        size = [src.weighted([(1, -1), (4, n(9))]) for _ in range(src.int(1, 4))]
        params["shape"] = it(size)
    elif op == "force_gray" and src.bool(0.7):
        scale = src.choice([(0.299, 0.587, 0.114), (0.25, 0.75), (0.5, 0.25, 0.125, 0.125), (1.0,), (0.0, 0.0, 1.0)])
        params["scale"] = np.asarray(scale, F32)
    elif op == "norm_image" and src.bool():
        params["epsilon"] = F32(0.25)
    th = src.choice([None, 1, 2, 4])
    desc, nt, labels = f"{op} {np.dtype(dt).name} { {k: np.asarray(v).tolist() for k, v in params.items()} } threads {th}", False, [op]
    rank4 = op.startswith("_nhwc")
    with env.session(op, 1, params, threads=th) as ses:
        for _ in range(src.weighted([(3, 1), (3, 2), (1, 4)])):
            r = 4 if rank4 and src.bool(0.9) else src.int(1, 5)
            s = [src.weighted([(1, 1), (4, n(9))]) for _ in range(r)]
            if op.startswith("force"):
                s[-1] = src.weighted([(4, 3), (4, 1), (1, 2), (1, 4)])
            if rank4 or src.bool():
                s[0] = src.int(1, 3)
            zero = src.bool(0.06)
            if zero:
                s[src.raw(r)] = 0
            x = small(src, s, dt) if op == "force_gray" else pic(src, s, dt)
            what = f"{desc} on {s}"
            s = tuple(s)
            desc += f" {list(s)}"
            bad = None
            if rank4:
                bad = r != 4
                if not bad and zero and 0 in s[1:3]:
                    bad = op != "_nhwc_center_crop2d"
            elif op in ("divided", "_limit"):
                bad = r < len(size)
            elif op == "force_color":
                bad = s[-1] not in (1, 3)
            elif op == "force_gray":
                bad = s[-1] != 1 and s[-1] != len(scale or BGR)
            else:
                bad = np.dtype(dt).kind != "f"
            if bad:
                labels.append("refused")
                reject(ses, [x], what)
                continue
            g = ses(x)
            nt |= x.size > 1
            if op == "_nhwc_center_crop2d":
                same(g, crop(x, size[::-1]), what)
            elif op == "_nhwc_scale_resize2d":
                hw = size[::-1] if len(size) == 2 else scale_hw(size[0], s[1], s[2])
                check_resize(g, x, 1, tuple(hw), kind, what)
            elif op == "_nhwc_letterbox":
                hw = size[::-1] if len(size) == 2 else size * 2
                A, slack = letterbox_args(x, hw)
                check_affine(g, x, 1, hw, A, kind, outer, what, slack)
            elif op == "divided":
                z = [1] * (r - len(size)) + size
                same(g, np.pad(x, [(0, -a % b) for a, b in zip(s, z)], constant_values=x.dtype.type(outer)), what)
            elif op == "_limit":
                y = x
                for d, m in enumerate([-1] * (r - len(size)) + size):
                    if 0 < m < s[d]:
                        b = (s[d] - m) // 2
                        y = y.take(np.arange(b, b + m), d)
                same(g, y, what)
            elif op == "force_color":
                same(g, np.repeat(x, 3, r - 1) if s[-1] == 1 else x, what)
            elif op == "force_gray":
                if s[-1] == 1:
                    same(g, x, what)
                else:
                    check_gray(g, x, scale or BGR, what)
            elif x.size:
                check_norm(g, x, None if op == "prewhiten" else float(params.get("epsilon", 1e-5)), what)
            elif g[0].shape != s:
                raise Violation(f"{what}: gave {g!r}"[:300])
    return {"desc": desc, "nt": nt, "labels": labels}


TARGETS = {"pipe": t_pipe, "op": t_op}
WEIGHTS = {"pipe": 3, "op": 2}
