"""Transposed, deformable and quantized convolutions, quantization."""
import numpy as np
from tv import fmt, ops
from tv.gen import Violation, Discard
from tv.api import ApiError
from props.P11 import I, pad_of, arr, tol_check, windows, ref_conv

ID = "P12"
RULE = ("one transpose_conv2d, dcn_v2_forward, quantize or conv2d_quantized on generated x, kernel, offsets, mask, scales, asymmetric "
        "padding, stride, dilation, kernels as constant or run-time input, compile options, thread number, with repeated runs of other "
        "sizes; compared with a direct numpy evaluation in float64 (int64 for the quantized ones); arguments that do not fit "
        "must be rejected; non-trivial = at least 2 output elements; distinct by arguments and data")
CASES = {"quick": 16000, "thorough": 400000}
VARIANTS = ("rel", "asan")
OPTS = [None, "", "--no-pack", "--pack"]


def setup(libs):
    return ops.Env(libs)


def chan(src, lim=18):
    return src.weighted([(3, 1), (5, src.int(2, 5)), (3, src.int(6, lim))])


def kern(src):
    return src.weighted([(4, (3, 3)), (3, (1, 1)), (3, (2, 2)), (3, (src.int(1, 4), src.int(1, 4))), (1, (src.int(1, 7), src.int(1, 7)))])


def pair(src, w, hi):
    return src.weighted([(w, (1, 1)), (2, (2, 2)), (2, (src.int(1, hi), src.int(1, hi)))])


def pads(src, hi):
    return src.weighted([(4, (0,) * 4), (3, (1,) * 4), (4, tuple(src.int(0, hi) for _ in range(4)))])


def params_of(src, p, s, d):
    return {"format": "NCHW", "padding": pad_of(p), "stride": I([1, 1, s[0], s[1]]),
            "dilation": I([1, 1, d[0], d[1]])}


def ref_transpose(x, w, p, s, d):
    n, _, h, ww = x.shape
    o, kh, kw = w.shape[1:]
    H, W = (h - 1) * s[0] + (kh - 1) * d[0] + 1, (ww - 1) * s[1] + (kw - 1) * d[1] + 1
    y = np.zeros((n, o, H, W))
    for i in range(kh):
        for j in range(kw):
            a, b = i * d[0], j * d[1]
            y[:, :, a:a + (h - 1) * s[0] + 1:s[0], b:b + (ww - 1) * s[1] + 1:s[1]] += \
                np.einsum("nchw,co->nohw", x, w[:, :, i, j], optimize=True)
    return y[:, :, p[0]:H - p[1], p[2]:W - p[3]]


def t_transpose(src, env):
    dt = src.weighted([(4, np.float32), (1, np.float64)])
    n, c, o = src.weighted([(6, 1), (3, 2), (1, 3)]), chan(src), chan(src)
    k, s, d = kern(src), pair(src, 4, 4), pair(src, 6, 3)
    p = pads(src, 3)
    par = params_of(src, p, s, d)
    if src.bool(0.1):
        par["dialations"] = par.pop("dilation")
    if src.bool(0.1):
        par["padding_value"] = np.float32(src.choice([0, 2]))
    w = arr(src, (c, o) + k, dt)
    const = {1: w} if src.bool(0.6) else {}
    opt, th = src.choice(OPTS), src.choice([None, None, 1, 3])
    what = f"transpose_conv2d {np.dtype(dt).name} w{list(w.shape)} pad{p} stride{s} dilation{d} const{sorted(const)} options {opt!r} threads {th}"
    nrun = src.weighted([(6, 1), (3, 2)])
    nt = False
    with env.session("transpose_conv2d", 2, par, const, options=opt, threads=th) as ses:
        for r in range(nrun):
            hw = tuple(src.weighted([(6, src.int(1, 6)), (2, src.int(1, 14))]) for _ in range(2))
            out = [(hw[i] - 1) * s[i] + (k[i] - 1) * d[i] + 1 - p[2 * i] - p[2 * i + 1] for i in range(2)]
            if r:
                n = src.int(1, 2)
                if not const:
                    w = arr(src, w.shape, dt)
            x = arr(src, (n, c) + hw, dt)
            xs = [x] if const else [x, w]
            wr = f"{what} run {r} x{list(x.shape)}"
            if min(out) <= 0:
                reject(ses, xs, wr + f" (output {out})")
                continue
            x6, w6 = x.astype(np.float64), w.astype(np.float64)
            want = ref_transpose(x6, w6, p, s, d)
            mag = ref_transpose(np.abs(x6), np.abs(w6), p, s, d)
            nt = nt or want.size > 1
            tol_check(ses(*xs), want, mag, float(np.finfo(dt).eps) * (16 + c + k[0] * k[1]), wr, dt)
    return {"desc": what + f" #{src.rec[-3:]}", "nt": nt,
            "labels": ["transpose_conv2d", "1x1" if k == (1, 1) else "kxk", "padded" if any(p) else "unpadded"]}


def reject(ses, xs, what):
    try:
        got = ses(*xs)
    except ApiError:
        return
    if any(f.np().size for f in got):
        raise Violation(f"{what}: a result {[f.shape for f in got]} instead of an error")


def ref_dcn(x, w, b, off, mask, p, s, d, g):
    n, c, h, ww = x.shape
    o, _, kh, kw = w.shape
    oh, ow = off.shape[2:]
    col = np.zeros((n, c, kh, kw, oh, ow))
    y0 = (np.arange(oh) * s[0] - p[0])[:, None]
    x0 = (np.arange(ow) * s[1] - p[1])[None, :]
    cg = c // g
    f32 = np.float32
    for i in range(n):
        for a in range(kh):
            for e in range(kw):
                for q in range(g):
                    t = a * kw + e
                    oy = off[i, (q * kh * kw + t) * 2].astype(f32)
                    ox = off[i, (q * kh * kw + t) * 2 + 1].astype(f32)
                    m = mask[i, q * kh * kw + t]
                    yy = ((y0 + a * d[0]).astype(f32) + oy).astype(np.float64)
                    xx = ((x0 + e * d[1]).astype(f32) + ox).astype(np.float64)
                    ok = (yy > -1) & (xx > -1) & (yy < h) & (xx < ww)
                    fy, fx = np.floor(yy), np.floor(xx)
                    ly, lx = yy - fy, xx - fx
                    acc = np.zeros((cg, oh, ow))
                    for dy, wy in ((0, 1 - ly), (1, ly)):
                        for dx, wx in ((0, 1 - lx), (1, lx)):
                            iy, ix = fy.astype(int) + dy, fx.astype(int) + dx
                            inn = ok & (iy >= 0) & (iy < h) & (ix >= 0) & (ix < ww)
                            v = x[i, q * cg:(q + 1) * cg][:, np.clip(iy, 0, h - 1), np.clip(ix, 0, ww - 1)]
                            acc += np.where(inn, wy * wx, 0) * v
                    col[i, q * cg:(q + 1) * cg, a, e] = acc * m
    return np.einsum("ncijhw,ocij->nohw", col, w, optimize=True) + b[None, :, None, None]


def t_dcn(src, env):
    g = src.weighted([(5, 1), (2, 2), (1, 3)])
    n, c, o = src.weighted([(5, 1), (3, 2), (1, 3)]), g * src.int(1, 4), chan(src, 12)
    k, s, d = kern(src), pair(src, 4, 3), pair(src, 6, 3)
    p = src.weighted([(4, (1, 1)), (3, (0, 0)), (3, (src.int(0, 3), src.int(0, 3)))])
    hw = tuple(max(1, (k[i] - 1) * d[i] + 1 - 2 * p[i]) + src.int(0, 7) for i in range(2))
    oh, ow = [(hw[i] + 2 * p[i] - (k[i] - 1) * d[i] - 1) // s[i] + 1 for i in range(2)]
    x = arr(src, (n, c) + hw, np.float32)
    w = arr(src, (o, c) + k, np.float32)
    b = arr(src, (o,), np.float32)
    kk = src.weighted([(4, "fractional"), (2, "integer"), (1, "far")])
    shp = (n, 2 * g * k[0] * k[1], oh, ow)
    if kk == "integer":
        off = np.asarray(src.iarray(shp, np.int32, -2, 2), np.float32)
    elif kk == "far":
        off = np.asarray(src.iarray(shp, np.int32, -40, 40), np.float32) / np.float32(4)
    else:
        off = np.asarray(src.iarray(shp, np.int32, -96, 96), np.float32) / np.float32(32)
    mask = np.asarray(src.iarray((n, g * k[0] * k[1], oh, ow), np.int32, 0, 8), np.float32) / np.float32(8)
    par = params_of(src, (p[0], p[0], p[1], p[1]), s, d)
    par["deformable_groups"] = np.int32(g)
    const = {}
    if src.bool(0.5):
        const = {1: w, 2: b}
    opt, th = src.choice(OPTS), src.choice([None, None, 1, 3])
    what = (f"dcn_v2_forward x{list(x.shape)} w{list(w.shape)} pad{p} stride{s} dilation{d} groups {g} {kk} offsets "
            f"const{sorted(const)} options {opt!r} threads {th}")
    with env.session("dcn_v2_forward", 5, par, const, options=opt, threads=th) as ses:
        full = [x, w, b, off, mask]
        bad = src.bool(0.12)
        if bad:
            # operands that do not fit together
            i = src.weighted([(1, 2), (2, 3), (2, 4), (1, 1)])
            if i in const:
                i = 3
            a = full[i]
            ax = src.int(0, a.ndim - 1)
            if i == 1 and ax != 1:
                ax = 1
            sh = list(a.shape)
            sh[ax] += src.choice([-1, 1, 2])
            if sh[ax] <= 0:
                sh[ax] = a.shape[ax] + 1
            full[i] = np.ones(sh, np.float32)
            reject(ses, [v for q, v in enumerate(full) if q not in const], f"{what} with input {i} of shape {sh}")
        else:
            got = ses(*[v for q, v in enumerate(full) if q not in const])
            f = [v.astype(np.float64) for v in full]
            want = ref_dcn(*f, p, s, d, g)
            mag = ref_dcn(np.abs(f[0]), np.abs(f[1]), np.abs(f[2]), f[3], np.abs(f[4]), p, s, d, g)
            mag = mag + np.abs(f[0]).max(initial=0) * np.abs(f[1]).sum((1, 2, 3))[None, :, None, None]
            tol_check(got, want, mag, 2.0 ** -23 * (32 + c * k[0] * k[1]), what, np.float32)
    return {"desc": what + f" #{src.rec[-3:]}", "nt": n * o * oh * ow > 1, "labels": ["dcn misfit" if bad else "dcn", kk]}


def ref_quant(x, sc):
    v = x * sc.reshape((-1,) + (1,) * (x.ndim - 1))
    return v


def t_quantize(src, env):
    dt = src.weighted([(4, np.float32), (1, np.float64)])
    shape = tuple(src.weighted([(2, 1), (3, 2), (3, src.int(3, 6))]) if i == 0 else src.weighted([(3, src.int(1, 5)), (2, src.int(6, 40))])
                  for i in range(src.int(1, 4)))
    if int(np.prod(shape)) > 6000:
        shape = shape[:2]
    sc = np.asarray([src.choice([1, 0.5, 2, 127, 10, 0.1, 1 / 3, 63.5]) for _ in range(shape[0])], np.float32)
    kk = src.weighted([(5, "normal"), (2, "wide"), (1, "huge")])
    x = np.asarray(src.iarray(shape, np.int32, -4000, 4000), np.float64) / 1024
    if kk == "wide":
        x = x * 256
    elif kk == "huge":
        x = x * 10.0 ** src.choice([8, 10, 12, 20, 30])
    x = x.astype(dt)
    opt, th = src.choice(OPTS), src.choice([None, 1, 3])
    what = f"quantize {np.dtype(dt).name} x{list(shape)} scales {sc.tolist()[:4]} {kk} options {opt!r} threads {th}"
    mis = src.bool(0.06)
    with env.session("quantize", 1, {"quantize_scale": np.append(sc, sc[:1]) if mis else sc}, {}, options=opt, threads=th) as ses:
        if mis:
            reject(ses, [x], what + f" with {len(sc) + 1} scales")
        else:
            got = ses(x)
            if len(got) != 1 or got[0].dtype != fmt.ID[np.dtype(np.int8)] or got[0].shape != shape:
                raise Violation(f"{what}: gave {ops.ndesc(got) if hasattr(ops, 'ndesc') else got}")
            q = got[0].np().astype(np.float64)
            # nearest integer of x*scale, limited to int8; which of two equally near ones is not specified
            v = np.clip(ref_quant(x.astype(np.float64), sc.astype(np.float64)), -128, 127)
            slack = 0.5 + np.abs(v) * 2.0 ** -22
            bad = np.abs(q - v) > slack
            if bad.any():
                i = tuple(int(t) for t in np.argwhere(bad)[0])
                raise Violation(f"{what}: {int(bad.sum())} of {bad.size} elements differ, first at {list(i)}: x={x[i]!r} "
                                f"scale={sc[i[0]]!r} gave {int(q[i])}")
            for a in range(shape[0]):
                fl = x[a].reshape(-1)
                qq = q[a].reshape(-1)
                uq, inv = np.unique(fl, return_inverse=True)
                lo, hi = np.full(len(uq), 999.0), np.full(len(uq), -999.0)
                np.minimum.at(lo, inv.reshape(-1), qq)
                np.maximum.at(hi, inv.reshape(-1), qq)
                if (lo != hi).any():
                    i = int(np.argwhere(lo != hi)[0, 0])
                    raise Violation(f"{what}: value {uq[i]!r} at scale {sc[a]!r} gave both {lo[i]} and {hi[i]}")
    return {"desc": what + f" #{src.rec[-3:]}", "nt": x.size > 1, "labels": ["quantize " + kk, "one scale" if len(sc) == 1 else "scales"]}


def t_qconv(src, env):
    n, c, o = src.weighted([(6, 1), (3, 2), (1, 3)]), chan(src), chan(src)
    k, s, d, p = kern(src), pair(src, 4, 4), pair(src, 6, 3), pads(src, 3)
    par = params_of(src, p, s, d)
    v = src.weighted([(4, 0), (1, 3), (1, -7)])
    if v or src.bool(0.5):
        par["padding_value"] = np.float32(v)
    sc = np.asarray([src.choice([1, 0.5, 1 / 127, 0.02, 3e-4, 2]) for _ in range(o)], np.float32)
    par["dequantize_scales"] = sc
    w = np.asarray(src.iarray((o, c) + k, np.int8), np.int8)
    const = {1: w} if src.bool(0.6) else {}
    opt, th = src.choice(OPTS), src.choice([None, None, 1, 3])
    what = f"conv2d_quantized w{list(w.shape)} pad{p} value {v} stride{s} dilation{d} const{sorted(const)} options {opt!r} threads {th}"
    nt = False
    with env.session("conv2d_quantized", 2, par, const, options=opt, threads=th) as ses:
        for r in range(src.weighted([(6, 1), (3, 2)])):
            hw = tuple(max(1, (k[i] - 1) * d[i] + 1 - p[2 * i] - p[2 * i + 1]) + src.weighted([(5, src.int(0, 5)), (3, src.int(0, 16))])
                       for i in range(2))
            if r:
                n = src.int(1, 2)
            x = np.asarray(src.iarray((n, c) + hw, np.int8), np.int8)
            want = ref_conv(x.astype(np.int64), w.astype(np.int64), p, s, d, v).astype(np.float64)
            want = want * sc.astype(np.float64)[None, :, None, None]
            nt = nt or want.size > 1
            tol_check(ses(*([x] if const else [x, w])), want, np.abs(want), 2.0 ** -22, f"{what} run {r} x{list(x.shape)}", np.float32)
    return {"desc": what + f" #{src.rec[-3:]}", "nt": nt, "labels": ["conv2d_quantized", "1x1" if k == (1, 1) else "kxk"]}


TARGETS = {"transpose": t_transpose, "dcn": t_dcn, "quantize": t_quantize, "qconv": t_qconv}
WEIGHTS = {"transpose": 8, "dcn": 5, "quantize": 4, "qconv": 6}
