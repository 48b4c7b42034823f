"""Convolutions: conv2d(_v2), depthwise_conv2d(_v2), conv2d_winograd(_v2)."""
import numpy as np
from tv import fmt, ops
from tv.gen import Violation, Discard
from tv.api import ApiError

ID = "P11"
RULE = ("one convolution operator on generated x, kernel, 4x2 padding (asymmetric), stride, dilation, padding value, type, kernel "
        "as constant or run-time input, compile options, thread number, preceded in some cases by runs on other sizes in the "
        "same workbench; compared with a direct numpy convolution; non-trivial = at least 2 output elements and a kernel or "
        "channel count above 1; distinct by arguments and data")
CASES = {"quick": 16000, "thorough": 400000}
VARIANTS = ("rel", "asan")
I = lambda v: np.asarray(v, np.int32)
OPTS = [None, "", "--no-pack", "--pack"]


def setup(libs):
    return ops.Env(libs)


def pad_of(p):
    return np.asarray([[0, 0], [0, 0], [p[0], p[1]], [p[2], p[3]]], np.int32)


def windows(x, k, p, s, d, v):
    """x NCHW -> N C OH OW KH KW"""
    # a negative padding takes rows or columns away
    xp = np.pad(x, [(0, 0), (0, 0)] + [(max(a, 0), max(b, 0)) for a, b in (p[:2], p[2:])], constant_values=v)
    xp = xp[:, :, max(-p[0], 0):xp.shape[2] - max(-p[1], 0), max(-p[2], 0):xp.shape[3] - max(-p[3], 0)]
    ext = ((k[0] - 1) * d[0] + 1, (k[1] - 1) * d[1] + 1)
    w = np.lib.stride_tricks.sliding_window_view(xp, ext, (2, 3))
    return w[:, :, ::s[0], ::s[1], ::d[0], ::d[1]]


def ref_conv(x, w, p, s, d, v):
    return np.einsum("nchwij,ocij->nohw", windows(x, w.shape[2:], p, s, d, v), w, optimize=True)


def ref_depth(x, w, p, s, d, v):
    return np.einsum("nchwij,cij->nchw", windows(x, w.shape[2:], p, s, d, v), w[0], optimize=True)


def dims(src, kind, big):
    n = src.weighted([(6, 1), (3, 2), (1, 3)])
    c = src.weighted([(3, 1), (4, src.int(2, 5)), (2, src.int(6, 13)), (1, src.int(14, 24 if big else 18))])
    o = c if kind == "depth" else src.weighted([(2, 1), (4, src.int(2, 5)), (3, src.int(6, 17)), (1, src.int(18, 34))])
    return n, c, o


def geometry(src, win):
    if win:
        k = (3, 3)
        s = d = (1, 1)
    else:
        k = src.weighted([(5, (3, 3)), (3, (1, 1)), (2, (2, 2)), (2, (src.int(1, 5), src.int(1, 5))), (1, (5, 5)), (1, (7, 3))])
        s = src.weighted([(5, (1, 1)), (4, (2, 2)), (2, (src.int(1, 4), src.int(1, 4)))])
        d = src.weighted([(6, (1, 1)), (1, (2, 2)), (2, (src.int(1, 3), src.int(1, 3)))])
    p = src.weighted([(4, (0, 0, 0, 0)), (3, (1, 1, 1, 1)), (3, tuple(src.int(0, 3) for _ in range(4))),
                      (1, tuple(src.int(0, 6) for _ in range(4))), (1, tuple(src.int(-2, 2) for _ in range(4)))])
    return k, s, d, p


def size(src, k, d, p, win):
    out = []
    for i in range(2):
        ext = (k[i] - 1) * d[i] + 1
        lo = max(1, ext - p[2 * i] - p[2 * i + 1])
        out.append(src.weighted([(5, src.int(lo, lo + 9)), (3, src.int(lo, lo + 20)), (1, src.int(lo, lo + 40))]))
    if out[0] * out[1] > 900:
        out[1] = max(1, (k[1] - 1) * d[1] + 1 - p[2] - p[3])
    return tuple(out)


def arr(src, shape, dt):
    return np.asarray(src.farray(shape, dt), dt)


def conv_case(src, env, kind):
    """kind: conv | depth | wino"""
    v2 = src.bool(0.35)
    op = {"conv": "conv2d", "depth": "depthwise_conv2d", "wino": "conv2d_winograd"}[kind] + ("_v2" if v2 else "")
    dt = np.float32 if kind == "wino" else src.weighted([(4, np.float32), (1, np.float64)])
    n, c, o = dims(src, kind, True)
    k, s, d, p = geometry(src, kind == "wino")
    hw = size(src, k, d, p, kind == "wino")
    v = src.weighted([(4, 0.0), (1, 1.0), (1, -2.5)])
    wshape = (1, c) + k if kind == "depth" else (o, c) + k
    w = arr(src, wshape, dt)
    params = {"format": "NCHW", "padding_value": np.float32(v)}
    if kind != "wino":
        st, dl = I([1, 1, s[0], s[1]]), I([1, 1, d[0], d[1]])
        if src.bool(0.2):
            st = st.astype(src.choice([np.int64, np.float32]))
        params["stride"] = st
        params["dialations" if src.bool(0.1) else "dilation"] = dl
    if v == 0.0 and src.bool(0.5):
        del params["padding_value"]
    pt = pad_of(p)
    if src.bool(0.15):
        pt = pt.astype(src.choice([np.int64, np.int8]))
    if not v2:
        params["padding"] = pt
    wi = 2 if v2 else 1
    const = {}
    if src.bool(0.6):
        const[wi] = w
    if v2 and src.bool(0.5):
        const[1] = pt
    opt, th = src.choice(OPTS), src.choice([None, None, 1, 2, 4])
    what = (f"{op} {np.dtype(dt).name} x[{n},{c},{hw[0]},{hw[1]}] w{list(wshape)} pad{p} stride{s} dilation{d} value {v} "
            f"const{sorted(const)} options {opt!r} threads {th}")
    ref = ref_depth if kind == "depth" else ref_conv
    nrun = src.weighted([(6, 1), (2, 2), (1, 3)])
    with env.session(op, 3 if v2 else 2, params, const, options=opt, threads=th) as ses:
        for r in range(nrun):
            if r:
                if 1 not in const and v2:
                    p = tuple(src.int(0, 3) for _ in range(4))
                    pt = pad_of(p)
                hw = size(src, k, d, p, kind == "wino")
                n = src.int(1, 2)
                if wi not in const:
                    w = arr(src, w.shape, dt)
            x = arr(src, (n, c) + hw, dt)
            xs = [x]
            if v2 and 1 not in const and src.bool(0.15):
                # paddings that are none fail, again and again, and leave the next run alone
                bad = src.choice([pt[:-1], pt.reshape(-1), pt[0], pt + I([[0, 0], [1, 1], [0, 0], [0, 0]]), np.int32(0)])
                for _ in range(2):
                    try:
                        got = ses(x, bad, *([] if wi in const else [w]))
                    except ApiError:
                        continue
                    raise Violation(f"{what} run {r}: padding {np.asarray(bad).tolist()} gave a result {[f.shape for f in got]}")
            if v2 and 1 not in const:
                xs.append(pt)
            if wi not in const:
                xs.append(w)
            x6, w6 = x.astype(np.float64), w.astype(np.float64)
            want = ref(x6, w6, p, s, d, v)
            mag = ref(np.abs(x6), np.abs(w6), p, s, d, abs(v))
            eps = float(np.finfo(dt).eps)
            if kind == "wino":
                # the transform mixes all elements of a tile: relative to the largest value involved
                mag = np.full(want.shape, (np.abs(x6).max(initial=0) + abs(v)) * np.abs(w6).max(initial=0) * 9 * c * 40)
            got = ses(*xs)
            ops.check(got, want.astype(dt), 0, 0, what + f" run {r}", dtype=fmt.ID[np.dtype(dt)]) if False else \
                tol_check(got, want, mag, eps * (16 + k[0] * k[1] * c / 4), what + f" run {r} x{list(x.shape)} pad{p}", dt)
            if r == 0 and src.bool(0.1) and got != ses(*xs):
                raise Violation(what + ": repeating the run changed the result")
    return {"desc": f"{what} runs {nrun} #{src.rec[-3:]}", "nt": want.size >= 2 and (c > 1 or k != (1, 1)),
            "labels": [op, np.dtype(dt).name, "const kernel" if wi in const else "input kernel", f"k{k[0]}x{k[1]}" if k in
                       ((1, 1), (3, 3)) else "k other", "dilated" if d != (1, 1) else "dense", "padded" if any(p) else "unpadded"]}


def tol_check(got, want, mag, rel, what, dt):
    if len(got) != 1:
        raise Violation(f"{what}: {len(got)} fields")
    g = got[0]
    if g.shape != want.shape:
        raise Violation(f"{what}: output shape {list(g.shape)}, expected {list(want.shape)}")
    if g.dtype != fmt.ID[np.dtype(dt)]:
        raise Violation(f"{what}: output type {g.dtype}")
    a = g.np().astype(np.float64)
    bad = ~(np.abs(a - want) <= mag * rel + 1e-30)
    if bad.any():
        i = tuple(int(q) for q in np.argwhere(bad)[0])
        raise Violation(f"{what}: {int(bad.sum())} of {bad.size} elements differ, first at {list(i)}: got {a[i]!r}, "
                        f"expected {want[i]!r}")


def t_conv(src, env):
    return conv_case(src, env, "conv")


def t_depth(src, env):
    return conv_case(src, env, "depth")


def t_wino(src, env):
    return conv_case(src, env, "wino")


def wino_tol(x6, w6, v, shape):
    return np.full(shape, (np.abs(x6).max(initial=0) + abs(v)) * np.abs(w6).max(initial=0) * 9 * w6.shape[1] * 40)


def t_winopre(src, env):
    """a kernel transformed ahead by winograd_transform_kernel (f23 or f63), then conv2d_winograd(_v2) told so: the direct
    convolution with the kernel itself"""
    mode = src.weighted([(4, "winograd_f23"), (4, "winograd_f63"), (1, None)])
    v2 = src.bool(0.3)
    op = "conv2d_winograd" + ("_v2" if v2 else "")
    n, c, o = dims(src, "wino", True)
    k, s, d, p = geometry(src, True)
    v = src.weighted([(4, 0.0), (1, 1.0), (1, -2.5)])
    w = arr(src, (o, c, 3, 3), np.float32)
    params = {"format": "NCHW", "padding_value": np.float32(v), "kernel_winograd_transformed": True}
    if not v2:
        params["padding"] = pad_of(p)
    wconst, pconst, ahead = src.bool(0.5), src.bool(0.5), src.bool(0.4)
    x = fmt.param("x")
    ins = [x]
    pn = None
    if v2:
        pn = fmt.const(pad_of(p), "pad") if pconst else fmt.param("pad")
        if not pconst:
            ins.append(pn)
    t = env.t
    if ahead:
        # in a program of its own, the result given as a constant or an input
        with env.session("winograd_transform_kernel", 1, {} if mode is None else {"winograd_mode": mode}) as ses:
            tw = ses(w)[0]
        side = 4 if mode == "winograd_f23" else 8
        if tw.shape != (o, c, side, side):
            raise Violation(f"winograd_transform_kernel {mode} of {list(w.shape)} gave {list(tw.shape)}")
        wn = fmt.const(tw.np(), "w") if wconst else fmt.param("w")
        kn = wn
    else:
        wn = fmt.const(w, "w") if wconst else fmt.param("w")
        kn = fmt.Node("winograd_transform_kernel", [wn], "tk", {} if mode is None else {"winograd_mode": mode})
    if not wconst:
        ins.append(wn)
    y = fmt.Node(op, [x, pn, kn] if v2 else [x, kn], "y", params)
    opt, th = src.choice(OPTS), src.choice([None, 1, 2, 4])
    what = (f"{op} with a kernel {[o, c, 3, 3]} transformed ahead ({mode}, {'another program' if ahead else 'same program'}) pad{p} "
            f"value {v} const {wconst} options {opt!r} threads {th}")
    m = t.module(fmt.enc_module(ins, [y]))
    try:
        wb = t.bench(m, opt)
    finally:
        t.free_Module(m)
    try:
        if th:
            t.Workbench_set_computing_thread_number(wb, th)
        for r in range(src.weighted([(4, 1), (2, 2)])):
            if r and not wconst and not ahead:
                w = arr(src, w.shape, np.float32)
            hw = size(src, k, d, p, True)
            xv = arr(src, (n, c) + hw, np.float32)
            given = {"x": xv, "pad": pad_of(p), "w": tw.np() if ahead else w}
            hs = [t.new(given[i.name]) for i in ins]
            try:
                for i, h in enumerate(hs):
                    t.set_input(wb, i, h)
                t.run(wb)
                got = t.output(wb, 0)
            finally:
                for h in hs:
                    t.free_Tensor(h)
            x6, w6 = xv.astype(np.float64), w.astype(np.float64)
            want = ref_conv(x6, w6, p, (1, 1), (1, 1), v)
            tol_check(got, want, wino_tol(x6, w6, v, want.shape), float(np.finfo(np.float32).eps) * (25 + 9 * c / 4),
                      what + f" run {r} x{list(xv.shape)}", np.float32)
    finally:
        t.free_Workbench(wb)
    return {"desc": f"{what} #{src.rec[-3:]}", "nt": want.size >= 2 and w.size > 9,
            "labels": [op, f"{mode} ahead", "const kernel" if wconst else "input kernel"]}


def t_wino63(src, env):
    """enough channels and a large enough input for the 6x6 tiles"""
    c, o = src.choice([(256, 256), (192, 342), (512, 128), (300, 219)])
    p = src.choice([(0, 0, 0, 0), (1, 1, 1, 1), (2, 0, 1, 3)])
    h, wd = src.int(17, 20), src.int(17, 20)
    rng = src.nprng()
    w = rng.integers(-4, 5, (o, c, 3, 3)).astype(np.float32)
    v = src.choice([0.0, 1.0])
    th = src.choice([None, 1, 3])
    params = {"format": "NCHW", "padding_value": np.float32(v), "padding": pad_of(p)}
    what = f"conv2d_winograd x[.,{c},{h},{wd}] w{[o, c, 3, 3]} pad{p} value {v} threads {th}"
    sizes = [(h, wd)] + ([(src.int(1, 19) + 2, src.int(1, 19) + 2)] if src.bool(0.4) else [])
    if src.bool(0.3):
        sizes.reverse()
    with env.session("conv2d_winograd", 2, params, {1: w} if src.bool(0.5) else {}, threads=th) as ses:
        for r, hw in enumerate(sizes):
            x = rng.integers(-4, 5, (1, c) + hw).astype(np.float32)
            got = ses(x, w) if not ses.consts else ses(x)
            want = ref_conv(x, w, p, (1, 1), (1, 1), np.float32(v)).astype(np.float64)
            tol_check(got, want, wino_tol(x, w, v, want.shape), float(np.finfo(np.float32).eps) * 40, what + f" run {r} {hw}", np.float32)
    return {"desc": f"{what} {sizes} #{src.rec[-3:]}", "nt": True, "labels": ["conv2d_winograd", "6x6 tiles"]}


def t_reject(src, env):
    """arguments that are no convolution give an error, not a result"""
    k = src.choice(["channels", "dtype", "rank", "nhwc", "kernel larger than the padded input", "padding on channels"])
    op = src.choice(["conv2d", "depthwise_conv2d", "conv2d_winograd"])
    x = arr(src, (1, 3, 6, 6), np.float32)
    w = arr(src, (1 if op == "depthwise_conv2d" else 4, 3, 3, 3), np.float32)
    params = {"format": "NCHW", "padding": pad_of((0, 0, 0, 0)), "stride": I([1] * 4), "dilation": I([1] * 4)}
    if k == "channels":
        x = arr(src, (1, src.choice([1, 2, 4, 5]), 6, 6), np.float32)
    elif k == "dtype":
        w = w.astype(np.float64)
    elif k == "rank":
        x = x[0]
    elif k == "nhwc":
        params["format"] = "NHWC"
        x = arr(src, (1, 6, 3, 3), np.float32)
        w = w.reshape(w.shape[0], 3, 3, 3)
        x = arr(src, (1, 3, 3, 3), np.float32)
    elif k == "padding on channels":
        params["padding"] = I([[0, 0], [1, 1], [0, 0], [0, 0]])
    else:
        x = arr(src, (1, 3, src.int(1, 2), src.choice([1, 2, 5])), np.float32)
    try:
        with env.session(op, 2, params, {}) as s:
            try:
                out = s(x, w)
            except ApiError as e:
                return {"desc": f"{op} reject {k} #{src.rec[-2:]}", "nt": True, "labels": ["reject " + k]}
            if any(min(f.shape, default=1) < 0 for f in out) or any(f.np().size for f in out):
                raise Violation(f"{op} with bad {k}: x{list(x.shape)} w{list(w.shape)} gave a result {[f.shape for f in out]}")
    except ApiError:
        pass
    return {"desc": f"{op} reject {k} #{src.rec[-2:]}", "nt": True, "labels": ["reject " + k]}


TARGETS = {"conv": t_conv, "depth": t_depth, "wino": t_wino, "winopre": t_winopre, "wino63": t_wino63, "reject": t_reject}
WEIGHTS = {"conv": 150, "depth": 90, "wino": 50, "winopre": 30, "wino63": 1, "reject": 12}
