"""Detection and landmark operators."""
import numpy as np
from tv import fmt, ops
from tv.gen import Violation, Discard
from tv.api import ApiError
from props.P12 import reject

ID = "P20"
RULE = ("roi_align, shape_index_patch, yolo, yolo_poster, prior_box, detection_output and proposal on generated feature maps, boxes, anchors, scores and options, "
        "several runs of different size per workbench, against direct float64 references (decoding, greedy suppression, level assignment); cases whose outcome "
        "hinges on a rounding error or on the order of equal scores are discarded; non-trivial = at least one box, region or patch produced; distinct by "
        "operator, options, shapes and data")
CASES = {"quick": 9000, "thorough": 300000}
VARIANTS = ("rel", "asan")
WEIGHTS = {"roi": 4, "patch": 3, "yolo": 2, "poster": 4, "prior": 3, "detection": 4, "proposal": 4}
f32 = np.float32


def setup(libs):
    return ops.Env(libs)


def img(src, s, amp=4):
    return (src.nprng().standard_normal(s) * amp).astype(f32)


def near(a, b, what, tol=1e-4):
    a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
    if a.shape != b.shape:
        raise Violation(f"{what}: shape {a.shape}, expected {b.shape}")
    bad = ~(np.abs(a - b) <= tol * (1 + np.abs(b)))
    if bad.any():
        i = tuple(int(k) for k in np.argwhere(bad)[0])
        raise Violation(f"{what}: {a[i]} at {i}, expected {b[i]}")


def field(got, n=1, what=""):
    if len(got) != n:
        raise Violation(f"{what}: {len(got)} fields, expected {n}")
    return [g.np() for g in got]


# --------------------------------------------------------------- roi_align
def bilinear(x, y, X):
    C, H, W = X.shape
    if y < -1 or y > H or x < -1 or x > W:
        return np.zeros(C)
    y, x = max(y, 0), max(x, 0)
    a, b = int(y), int(x)
    if a >= H - 1:
        a = a2 = H - 1
        y = a
    else:
        a2 = a + 1
    if b >= W - 1:
        b = b2 = W - 1
        x = b
    else:
        b2 = b + 1
    v, u = y - a, x - b
    return X[:, a, b] * (1 - v) * (1 - u) + X[:, a, b2] * (1 - v) * u + X[:, a2, b] * v * (1 - u) + X[:, a2, b2] * v * u


def edge(v, n):
    """would rounding decide whether v is inside"""
    return min(abs(v + 1), abs(v - n)) < 1e-3


def roi_ref(X, rois, ph, pw, scale, ratio):
    out = np.zeros((len(rois), X.shape[1], ph, pw))
    X = X.astype(np.float64)
    H, W = X.shape[2:]
    for k, r in enumerate(rois):
        b = int(r[0])
        if b < 0:
            continue
        x1, y1, x2, y2 = (float(f32(v) * f32(scale)) for v in r[1:])
        w, h = max(x2 - x1, 1), max(y2 - y1, 1)
        bh, bw = h / ph, w / pw
        if ratio > 0:
            gh = gw = ratio
        else:
            if min(abs(bh - round(bh)), abs(bw - round(bw))) < 1e-4 and not (bh == round(bh) and bw == round(bw)):
                raise Discard
            gh, gw = int(np.ceil(bh)), int(np.ceil(bw))
        ys = [[y1 + i * bh + (j + .5) * bh / gh for j in range(gh)] for i in range(ph)]
        xs = [[x1 + i * bw + (j + .5) * bw / gw for j in range(gw)] for i in range(pw)]
        if any(edge(v, H) for q in ys for v in q) or any(edge(v, W) for q in xs for v in q):
            raise Discard
        for i in range(ph):
            for j in range(pw):
                out[k, :, i, j] = sum(bilinear(x, y, X[b]) for y in ys[i] for x in xs[j]) / (gh * gw)
    return out


def t_roi(src, env):
    ph, pw = src.int(1, 4), src.int(1, 4)
    P = {"pool_h": np.int32(ph), "pool_w": np.int32(pw)}
    scale, ratio = 1.0, 2
    if src.bool(0.7):
        scale = src.choice([1.0, 0.5, 0.25, 0.0625, 2.0])
        P["spatial_scale"] = f32(scale)
    if src.bool(0.6):
        ratio = src.weighted([(2, 0), (1, -1), (2, 1), (2, 2), (2, 3)])
        P["sampling_ratio"] = np.int32(ratio)
    what = f"roi_align {ph}x{pw} scale {scale} sampling {ratio}"
    labels, nt = ["roi_align"], False
    with env.session("roi_align", 2, P, {}, threads=src.choice([None, 1, 4])) as s:
        for _ in range(src.weighted([(3, 1), (1, 2)])):
            N, C, H, W = src.int(1, 3), src.int(1, 3), src.int(1, 9), src.int(1, 9)
            x = img(src, (N, C, H, W))
            R = src.weighted([(5, src.int(1, 4)), (1, 0)])
            rois = np.zeros((R, 5), f32)
            for r in rois:
                r[0] = src.weighted([(8, src.raw(N)), (1, -1)])
                a, b = (sorted(src.int(-8, 4 * n + 12) / 4 for _ in range(2)) for n in (W, H))
                r[1:] = [a[0] / scale, b[0] / scale, a[1] / scale, b[1] / scale]
                if src.bool(0.1):
                    r[1:] = r[[3, 4, 1, 2]]
            w = f"{what} x {x.shape} rois {rois.tolist()}"
            want = roi_ref(x, rois, ph, pw, scale, ratio)
            near(field(s(x, rois), 1, w)[0], want, w, 1e-3 if scale < 1 else 1e-4)
            nt |= R > 0
            if src.bool(0.15):
                k = src.choice(["batch", "far batch", "dtype", "columns", "rank", "both"])
                bad, bx = np.zeros((2, 5), f32), x
                bad[:, 3:] = 2
                if k == "batch":
                    bad[1, 0] = N
                elif k == "far batch":
                    bad[0, 0] = 1e6
                elif k == "dtype":
                    bad = bad.astype(src.choice([np.int32, np.float64]))
                elif k == "columns":
                    bad = bad[:, :src.int(1, 4)].copy()
                elif k == "rank":
                    bx = x[0]
                else:
                    bad, bx = bad.astype(np.float64), x.astype(np.float64)
                reject(s, [bx, bad], f"{what} x {x.shape} with bad {k}")
                labels.append("bad " + k)
    return {"desc": w[:240] + f" #{src.rec[-2:]}", "labels": labels, "nt": nt}


# --------------------------------------------------------------- shape_index_patch
def t_patch(src, env):
    oh, ow = src.int(1, 20), src.int(1, 20)
    qh, qw = src.int(0, 8), src.int(0, 8)
    dt = src.weighted([(6, f32), (1, np.float64), (1, np.int32), (1, np.uint8)])
    P = {"origin_patch": np.asarray([qh, qw], np.int32), "origin": np.asarray([oh, ow], np.int32)}
    what = f"shape_index_patch origin {oh}x{ow} patch {qh}x{qw} {np.dtype(dt).name}"
    labels, nt = ["shape_index_patch"], False
    with env.session("shape_index_patch", 2, P, {}) as s:
        for _ in range(src.weighted([(3, 1), (1, 2)])):
            N, C, H, W, L = src.int(1, 3), src.int(1, 3), src.int(1, 12), src.int(1, 12), src.int(0, 4)
            x = src.nprng().integers(0, 200, (N, C, H, W)).astype(dt)
            if np.dtype(dt).kind == "f":
                pos = np.asarray([src.int(-40, 140) / 100 for _ in range(N * L * 2)], dt).reshape(N, 2 * L, 1, 1)
            else:
                pos = np.asarray([src.int(0, 1) for _ in range(N * L * 2)], dt).reshape(N, 2 * L, 1, 1)
            fh, fw = f32(qh * H) / f32(oh) + f32(.5), f32(qw * W) / f32(ow) + f32(.5)
            kh, kw = int(fh), int(fw)
            want = np.zeros((N, C, kh, L, kw), dt)
            for n in range(N):
                for i in range(L):
                    c = []
                    for p, size, k in ((pos[n, 2 * i + 1, 0, 0], H, kh), (pos[n, 2 * i, 0, 0], W, kw)):
                        v = float(p) * (size - 1) - (k - 1) / 2 + .5
                        if abs(v - round(v)) < 1e-4 and v != round(v):
                            raise Discard
                        if np.dtype(dt).kind == "f" and v == round(v) and float(p) not in (0., .5, 1., .25, .75) and size > 1:
                            raise Discard
                        c.append(int(v))        # truncation is the documented reference behaviour of this layer
                    for a in range(kh):
                        for b in range(kw):
                            if 0 <= c[0] + a < H and 0 <= c[1] + b < W:
                                want[n, :, a, i, b] = x[n, :, c[0] + a, c[1] + b]
            w = f"{what} x {x.shape} pos {pos.ravel().tolist()}"
            got = field(s(x, pos), 1, w)[0]
            ops.compare(got, want, 0, 0, w)
            nt |= want.size > 0
            if src.bool(0.15):
                k = src.choice(["batch", "odd", "wide", "dtype", "rank"])
                bad = np.zeros((N, 2, 1, 1), dt)
                if k == "batch":
                    bad = np.zeros((N - 1, 2, 1, 1), dt)
                    if N == 1:
                        bad, k = np.zeros((1, 3, 1, 1), dt), "odd"
                elif k == "odd":
                    bad = np.zeros((N, 3, 1, 1), dt)
                elif k == "wide":
                    bad = np.zeros((N, 2, 1, 2), dt)
                elif k == "dtype":
                    bad = bad.astype(np.int16)
                else:
                    bad = np.zeros((N, 2), dt)
                reject(s, [x, bad], f"{what} x {x.shape} with bad {k}")
                labels.append("bad " + k)
    return {"desc": w[:240] + f" #{src.rec[-2:]}", "labels": labels, "nt": nt}


# --------------------------------------------------------------- yolo
def sig(v):
    return 1 / (1 + np.exp(-v.astype(np.float64)))


def anchors(src):
    k = src.int(1, 5)
    n = src.int(1, min(k, 3))
    mask = np.asarray([src.raw(k) for _ in range(n)], np.int32)
    return mask, np.asarray([src.int(2, 60) for _ in range(2 * k)], f32)


def t_yolo(src, env):
    cls = src.int(0, 4)
    mask, anc = anchors(src)
    dt = src.weighted([(5, f32), (1, np.float64)])
    P = {"classes": np.int32(cls), "mask": mask, "anchors": anc}
    what = f"yolo classes {cls} mask {mask.tolist()} anchors {anc.tolist()} {np.dtype(dt).name}"
    labels, nt = ["yolo"], False
    with env.session("yolo", 1, P, {}) as s:
        for _ in range(src.weighted([(3, 1), (1, 2)])):
            N, H, W = src.int(1, 3), src.int(1, 6), src.int(1, 6)
            E = len(mask) * (cls + 5)
            x = img(src, (N, E, H, W), 3).astype(dt)
            v = x.reshape(N, len(mask), cls + 5, H, W)
            want = v.astype(np.float64)
            want[:, :, :2] = sig(v[:, :, :2])
            want[:, :, 4:] = sig(v[:, :, 4:])
            w = f"{what} x {x.shape}"
            got = field(s(x), 4, w)
            near(got[0], want.reshape(x.shape), w, 1e-5)
            if got[0].dtype != dt:
                raise Violation(f"{w}: became {got[0].dtype}")
            ops.compare(got[1].reshape(-1), np.asarray([cls], np.int32), 0, 0, w + " classes")
            ops.compare(got[2].reshape(-1), mask, 0, 0, w + " mask")
            ops.compare(got[3].reshape(-1), anc, 0, 0, w + " anchors")
            nt |= x.size > 1
            if src.bool(0.15):
                reject(s, [img(src, (N, E + src.choice([-1, 1]), H, W))], f"{what} with another number of channels")
    if src.bool(0.15):
        P["mask"] = np.append(mask, np.int32(src.choice([len(anc) // 2, -1, 1000]))).astype(np.int32)
        try:
            with env.session("yolo", 1, P, {}) as s:
                s(img(src, (1, len(P["mask"]) * (cls + 5), 2, 2)))
            raise Violation(f"{what}: accepted mask {P['mask'].tolist()}")
        except ApiError:
            labels.append("bad mask")
    return {"desc": w[:240] + f" #{src.rec[-2:]}", "labels": labels, "nt": nt}


def iou_c(a, b):
    """boxes (cx, cy, w, h)"""
    w = min(a[0] + a[2] / 2, b[0] + b[2] / 2) - max(a[0] - a[2] / 2, b[0] - b[2] / 2)
    h = min(a[1] + a[3] / 2, b[1] + b[3] / 2) - max(a[1] - a[3] / 2, b[1] - b[3] / 2)
    i = w * h if w > 0 and h > 0 else 0
    u = a[2] * a[3] + b[2] * b[3] - i
    return i / u if u > 0 else 0


def tight(v, t, eps=2e-5):
    if abs(v - t) < eps:
        raise Discard


def distinct(v, eps=1e-6):
    v = np.sort(np.asarray(v, np.float64))
    if len(v) > 1 and (np.diff(v) < eps).any():
        raise Discard


def poster_ref(layers, n, cls, size, thresh, nms):
    dets = []
    for y, mask, anc in layers:
        H, W = y.shape[2:]
        v = y[n].reshape(len(mask), cls + 5, H, W).astype(np.float64)
        for r in range(H):
            for c in range(W):
                for k, m in enumerate(mask):
                    o = v[k, 4, r, c]
                    tight(o, thresh)
                    if o <= thresh:
                        continue
                    x, yy = (c + v[k, 0, r, c]) / W, (r + v[k, 1, r, c]) / H
                    w, h = np.exp(v[k, 2, r, c]) * anc[2 * m] / size[1], np.exp(v[k, 3, r, c]) * anc[2 * m + 1] / size[0]
                    p = o * v[k, 5:, r, c]
                    for q in p:
                        tight(q, thresh)
                    l, t, R, b = (min(max(e, 0), 1) for e in (x - w / 2, yy - h / 2, x + w / 2, yy + h / 2))
                    dets.append([np.asarray([(l + R) / 2, (t + b) / 2, R - l, b - t]), np.where(p > thresh, p, 0)])
    for k in range(cls):
        live = [d for d in dets if d[1][k] > 0]
        distinct([d[1][k] for d in live])
        live.sort(key=lambda d: -d[1][k])
        for i, a in enumerate(live):
            if a[1][k] == 0:
                continue
            for b in live[i + 1:]:
                if a[0][2:].min() < 1e-4 or b[0][2:].min() < 1e-4:
                    raise Discard       # a degenerate box: the ratio is decided by rounding
                q = iou_c(a[0], b[0])
                tight(q, nms, 1e-4)
                if q > nms:
                    b[1][k] = 0
    return np.asarray([[d[0][0] - d[0][2] / 2, d[0][1] - d[0][3] / 2, d[0][2], d[0][3], d[1][k], k]
                       for d in dets for k in range(cls) if d[1][k] > thresh]).reshape(-1, 6), len(dets)


def t_poster(src, env):
    cls = src.int(1, 3)
    nl = src.weighted([(2, 1), (3, 2), (1, 3)])
    thresh, nms = float(f32(src.choice([0.1, 0.3, 0.5, 0.6, 0.7]))), float(f32(src.choice([0.2, 0.45, 0.6])))
    P = {"thresh": f32(thresh), "nms": f32(nms)}
    big = src.bool(0.12)
    defs = [anchors(src) for _ in range(nl)]
    what = f"yolo_poster thresh {thresh:.2f} nms {nms:.2f} classes {cls} layers {nl}"
    labels, nt = ["yolo_poster"], False
    with env.session("yolo_poster", 1 + nl, P, {}) as s:
        for _ in range(src.weighted([(3, 1), (1, 2)])):
            N = src.int(1, 3)
            size = (src.int(20, 100), src.int(20, 100))
            ls = []
            for mask, anc in defs:
                H, W = (src.int(5, 8), src.int(5, 8)) if big else (src.int(1, 4), src.int(1, 4))
                y = img(src, (N, len(mask) * (cls + 5), H, W), src.choice([0.3, 1]))
                v = y.reshape(N, len(mask), cls + 5, H, W)
                v[:, :, :2] = sig(v[:, :, :2])
                v[:, :, 4:] = sig(v[:, :, 4:] * 3)
                ls.append((y, mask, anc))
            net = np.zeros((N, 3) + size, src.choice([f32, np.uint8]))
            w = f"{what} grids {[l[0].shape for l in ls]} net {size}"
            want = [poster_ref(ls, n, cls, size, thresh, nms) for n in range(N)]
            got = field(s(net, *[[y, np.int32(cls), m, a] for y, m, a in ls]), N, w)
            for n in range(N):
                near(got[n], want[n][0], f"{w} image {n}", 2e-4)
                nt |= len(want[n][0]) > 0
                if want[n][1] > 128:
                    labels.append("more than 128 candidates")
                if len(want[n][0]) < want[n][1]:
                    labels.append("suppressed")
            if src.bool(0.1):
                k = src.choice(["classes", "batch", "plain", "none"])
                y, m, a = ls[0]
                other = [[q[0], np.int32(cls), q[1], q[2]] for q in ls[1:]]
                if k == "classes" and nl > 1:
                    bad = [y, np.int32(cls + 1), m, a]
                elif k == "batch" and nl > 1 and N > 1:
                    bad = [y[:1].copy(), np.int32(cls), m, a]
                else:
                    k, bad = "plain", y
                reject(s, [net, bad] + other, f"{w} with bad {k}")
                labels.append("bad " + k)
    return {"desc": w[:240] + f" #{src.rec[-2:]}", "labels": labels, "nt": nt}


# --------------------------------------------------------------- prior_box
def t_prior(src, env):
    k = src.int(1, 3)
    mins = [float(src.int(2, 60)) for _ in range(k)]
    maxs = [m + src.int(1, 40) for m in mins] if src.bool(0.6) else []
    ars = [src.choice([1.0, 2.0, 3.0, 0.5, 1 / 3, 1.5]) for _ in range(src.int(0, 3))]
    P = {"min_size": np.asarray(mins, f32), "max_size": np.asarray(maxs, f32), "aspect_ratio": np.asarray(ars, f32)}
    flip, clip, off, var = True, False, 0.5, [0.1]
    if src.bool(0.6):
        flip = src.bool()
        P["flip"] = np.bool_(flip) if src.bool(0.3) else np.int32(flip)
    if src.bool(0.6):
        clip = src.bool()
        P["clip"] = np.int32(clip)
    if src.bool(0.4):
        off = src.choice([0.0, 0.5, 0.25])
        P["offset"] = f32(off)
    if src.bool(0.7):
        var = [src.choice([0.1, 0.2, 0.5]) for _ in range(src.choice([1, 4]))]
        P["variance"] = np.asarray(var, f32)
    im = src.choice(["hw", "size", None])
    ih = iw = None
    if im == "hw":
        ih, iw = src.int(1, 300), src.int(1, 300)
        P["img_h"], P["img_w"] = np.int32(ih), np.int32(iw)
    elif im == "size":
        ih = iw = src.int(1, 300)
        P["img_size"] = np.int32(ih)
    st = src.choice(["hw", "one", None])
    sh = sw = None
    if st == "hw":
        sh, sw = src.int(1, 64) / src.choice([1, 1, 2, 4]) + src.choice([0, 1]), src.int(1, 64) / src.choice([1, 1, 2]) + src.choice([0, 1])
        P["step_h"], P["step_w"] = f32(sh), f32(sw)
    elif st == "one":
        sh = sw = src.int(1, 64) / src.choice([1, 1, 2])
        P["step"] = f32(sh)
    ratios = [1.0]
    for a in ars:
        a = float(f32(a))
        if not any(abs(a - b) < 1e-6 for b in ratios):
            ratios.append(a)
            if flip:
                ratios.append(1 / a)
    what = f"prior_box { {q: v.tolist() for q, v in P.items()} }"
    labels, nt = ["prior_box"], False
    two = im is None or src.bool(0.3)
    with env.session("prior_box", 2 if two else 1, P, {}) as s:
        for _ in range(src.weighted([(3, 1), (1, 2)])):
            H, W = src.int(1, 5), src.int(1, 5)
            feat = np.zeros((src.int(1, 2), src.int(1, 3), H, W), f32)
            Ih, Iw = src.int(1, 300), src.int(1, 300)
            pic = np.zeros((1, 1, Ih, Iw), f32)
            if im:
                Ih, Iw = ih, iw
            Sh, Sw = (sh, sw) if st else (Ih / H, Iw / W)
            box = []
            for h in range(H):
                for w in range(W):
                    cx, cy = (w + off) * Sw, (h + off) * Sh
                    for i, m in enumerate(mins):
                        wh = [(m, m)]
                        if maxs:
                            wh.append((np.sqrt(m * maxs[i]),) * 2)
                        wh += [(m * np.sqrt(a), m / np.sqrt(a)) for a in ratios[1:]]
                        box += [((cx - a / 2) / Iw, (cy - b / 2) / Ih, (cx + a / 2) / Iw, (cy + b / 2) / Ih) for a, b in wh]
            box = np.asarray(box).reshape(-1)
            if clip:
                box = np.clip(box, 0, 1)
            want = np.stack([box, np.resize(np.asarray(var, f32), box.size)])[None]
            w = f"{what} feature {feat.shape} image {pic.shape if two else None}"
            got = field(s(feat, pic) if two else s(feat), 1, w)[0]
            near(got, want, w, 2e-5)
            nt |= True
            if src.bool(0.1):
                bad = [feat[0], pic][:1 + two]
                if two and im is None and src.bool():
                    bad = [feat, pic[0, 0]]
                reject(s, bad, f"{what} with a rank below 4")
                labels.append("bad rank")
    return {"desc": w[:260] + f" #{src.rec[-2:]}", "labels": labels, "nt": nt}


# --------------------------------------------------------------- detection_output
def area(b):
    return (b[2] - b[0]) * (b[3] - b[1]) if b[2] >= b[0] and b[3] >= b[1] else 0


def jaccard(a, b):
    w, h = min(a[2], b[2]) - max(a[0], b[0]), min(a[3], b[3]) - max(a[1], b[1])
    if min(abs(w), abs(h)) < 1e-5:
        raise Discard
    if w <= 0 or h <= 0:
        return 0
    return w * h / (area(a) + area(b) - w * h)


def decode(p, v, d, code, target):
    v = np.ones(4) if target else v
    d = d * v
    w, h = p[2] - p[0], p[3] - p[1]
    if code == 1:
        return p + d
    if code == 3:
        return p + d * np.asarray([w, h, w, h])
    cx, cy = d[0] * w + (p[0] + p[2]) / 2, d[1] * h + (p[1] + p[3]) / 2
    bw, bh = np.exp(d[2]) * w, np.exp(d[3]) * h
    return np.asarray([cx - bw / 2, cy - bh / 2, cx + bw / 2, cy + bh / 2])


def detection_ref(loc, conf, prior, cls, share, bg, thr, topk, eta, code, target, keep, conft):
    n, P = len(loc), prior.shape[2] // 4
    pr = prior[0].reshape(2, P, 4).astype(np.float64)
    L = 1 if share else cls
    loc, conf = loc.reshape(n, P, L, 4).astype(np.float64), conf.reshape(n, P, cls).astype(np.float64)
    rows = []
    for i in range(n):
        kept = []
        for c in range(cls):
            if c == bg:
                continue
            for v in conf[i, :, c]:
                tight(v, conft)
            order = sorted((p for p in range(P) if conf[i, p, c] > conft), key=lambda p: -conf[i, p, c])
            distinct([conf[i, p, c] for p in order])
            if topk > -1:
                order = order[:topk]
            ad, mine = thr, []
            for p in order:
                b = decode(pr[0, p], pr[1, p], loc[i, p, 0 if share else c], code, target)
                ok = True
                for q in mine:
                    j = jaccard(b, q[2])
                    tight(j, ad, 1e-4)
                    if j > ad:
                        ok = False
                        break
                if ok:
                    mine.append((c, conf[i, p, c], b))
                    if eta < 1 and ad > 0.5:
                        tight(ad, .5, 1e-6)
                        ad *= eta
            kept += mine
        if keep > -1 and len(kept) > keep:
            distinct([k[1] for k in kept])
            cut = sorted((k[1] for k in kept), reverse=True)[:keep]
            kept = [k for k in kept if k[1] in cut]
        rows += [[i, c, s, *b] for c, s, b in kept]
    if not rows:
        return np.asarray([[[[i] + [-1] * 6 for i in range(n)]]], np.float64).reshape(1, 1, n, 7)
    return np.asarray([[rows]])


def t_detection(src, env):
    cls = src.int(1, 4)
    P = {"num_classes": np.int32(cls)}
    share, bg, thr, topk, eta, code, target, keep, conft = True, 0, 0.3, 1000, 1.0, 1, False, -1, 1e-5

    def opt(name, v, p=0.6):
        P[name] = v
        return v
    if src.bool(0.6):
        share = src.bool()
        P["share_location"] = np.int32(share)
    if src.bool(0.5):
        bg = opt("background_label_id", np.int32(src.int(-1, cls)))
    if src.bool(0.7):
        thr = float(opt("nms_threshold", f32(src.choice([0.0, 0.3, 0.45, 0.7, 0.9]))))
    if src.bool(0.5):
        topk = int(opt("nms_top_k", np.int32(src.choice([-1, 0, 1, 3, 100]))))
    if src.bool(0.4):
        eta = float(opt("nms_eta", f32(src.choice([1.0, 0.9, 0.5]))))
    if src.bool(0.8):
        code = int(opt("code_type", np.int32(src.int(1, 3))))
    if src.bool(0.5):
        target = src.bool()
        P["variance_encoded_in_target"] = np.int32(target)
    if src.bool(0.6):
        keep = int(opt("keep_top_k", np.int32(src.choice([-1, 0, 1, 2, 5, 200]))))
    if src.bool(0.6):
        conft = float(opt("confidence_threshold", f32(src.choice([0.0, 0.01, 0.3, 0.8, 2.0]))))
    what = f"detection_output { {q: v.tolist() for q, v in P.items()} }"
    labels, nt = ["detection_output"], False
    with env.session("detection_output", 3, P, {}) as s:
        for _ in range(src.weighted([(3, 1), (1, 2)])):
            n, k = src.int(1, 3), src.weighted([(6, src.int(1, 8)), (2, src.int(1, 30))])
            L = 1 if share else cls
            g = src.nprng()
            c, h = g.uniform(0, 1, (k, 2)), g.uniform(0.05, 0.4, (k, 2))
            prior = np.zeros((1, 2, 4 * k), f32)
            prior[0, 0] = np.concatenate([c - h, c + h], 1).reshape(-1)
            prior[0, 1] = g.uniform(0.05, 0.5, 4 * k)
            loc = (g.standard_normal((n, k * L * 4)) * src.choice([0.05, 0.3])).astype(f32)
            conf = g.uniform(0, 1, (n, k * cls)).astype(f32)
            w = f"{what} images {n} priors {k}"
            want = detection_ref(loc, conf, prior, cls, share, int(bg), thr, topk, eta, code, target, keep, conft)
            got = field(s(loc, conf, prior), 1, w)[0]
            near(got, want, w, 2e-4)
            nt |= bool((want[0, 0, :, 1] >= 0).any())
            if want.shape[2] < n * k * (cls - (0 <= bg < cls)):
                labels.append("suppressed")
            if src.bool(0.12):
                q = src.choice(["loc", "conf", "prior", "rank", "images"])
                bad = [loc, conf, prior]
                if q == "loc":
                    bad[0] = np.zeros((n, k * L * 4 + 4), f32)
                elif q == "conf":
                    bad[1] = np.zeros((n, k * cls + 1), f32)
                elif q == "prior":
                    bad[2] = prior[:, :1].copy()
                elif q == "rank":
                    bad[2] = prior[0]
                else:
                    bad[1] = np.zeros((n + 1, k * cls), f32)
                reject(s, bad, f"{w} with bad {q}")
                labels.append("bad " + q)
    return {"desc": w[:260] + f" #{src.rec[-2:]}", "labels": labels, "nt": nt}


# --------------------------------------------------------------- proposal
def rnd(v):
    return int(f32(v) + f32(.5))


def base_anchors(stride, ratios, scales):
    out, ctr = [], .5 * (stride - 1)
    for r in ratios:
        q = np.sqrt(f32(stride * stride) / f32(r))
        if abs(float(q) % 1 - .5) < 1e-3:
            raise Discard
        rw = rnd(q)
        z = f32(rw) * f32(r)
        if abs(float(z) % 1 - .5) < 1e-3 and float(z) * 2 != round(float(z) * 2):
            raise Discard
        rh = rnd(z)
        for s in scales:
            w, h = .5 * (rw * s - 1), .5 * (rh * s - 1)
            out.append([ctr - w, ctr - h, ctr + w, ctr + h])
    return np.asarray(out)


def iou1(a, b):
    if a[0] > b[2] or a[1] > b[3] or a[2] < b[0] or a[3] < b[1]:
        return 0
    w, h = min(a[2], b[2]) - max(a[0], b[0]) + 1, min(a[3], b[3]) - max(a[1], b[1]) + 1
    ar = lambda q: (q[2] - q[0] + 1) * (q[3] - q[1] + 1)
    return w * h / (ar(a) + ar(b) - w * h)


def proposal_ref(boxes, delta, score, info, pre, post, nms, msize):
    """boxes [M,4], delta [M,4], score [M] -> kept boxes"""
    ih, iw, sc = (float(v) for v in info)
    w, h = boxes[:, 2] - boxes[:, 0] + 1, boxes[:, 3] - boxes[:, 1] + 1
    cx, cy = boxes[:, 0] + .5 * w + delta[:, 0] * w, boxes[:, 1] + .5 * h + delta[:, 1] * h
    pw, ph = np.exp(delta[:, 2]) * w, np.exp(delta[:, 3]) * h
    b = np.stack([np.clip(v, 0, m - 1) for v, m in ((cx - .5 * pw, iw), (cy - .5 * ph, ih), (cx + .5 * pw, iw), (cy + .5 * ph, ih))], 1)
    m = msize * sc
    bw, bh = b[:, 2] - b[:, 0] + 1, b[:, 3] - b[:, 1] + 1
    if (np.abs(np.concatenate([bw, bh]) - m) < 1e-3).any():
        raise Discard
    ok = (bw >= m) & (bh >= m)
    sco = np.where(ok, score, 0)
    order = np.argsort(-sco, kind="stable")
    top = sco[order[:pre + 1]]
    if len(top) > 1 and (-np.diff(top) < 1e-6).any():
        raise Discard
    order = order[:pre]
    dead, keep = set(), []
    for i, p in enumerate(order):
        if p in dead:
            continue
        keep.append(b[p])
        if len(keep) == post:
            break
        for q in order[i + 1:]:
            v = iou1(b[p], b[q])
            tight(v, nms, 1e-4)
            if v > nms:
                dead.add(q)
    return np.asarray(keep).reshape(-1, 4)


def t_proposal(src, env):
    fpn = src.bool(0.4)
    nl = src.int(2, 3) if fpn else 1
    strides = [src.choice([4, 8, 16]) for _ in range(nl)] if not fpn else [4 * 2 ** i for i in range(nl)]
    ratios = [[0.5, 1, 2][src.raw(3)] for _ in range(src.int(1, 3))]
    scales = [float(src.int(1, 8)) for _ in range(src.int(1, 3))] if not fpn else [float(src.int(1, 8))] * nl
    P = {"strides": np.asarray(strides, np.int32), "ratios": np.asarray(ratios, f32), "scales": np.asarray(scales, f32)}
    pre, post, nms, msize, lo, hi, cs, cl = 6000, 300, 0.7, 16, 2, 5, 224, 4
    if src.bool(0.7):
        pre = src.choice([1, 5, 20, 6000])
        P["pre_nms_top_n"] = np.int32(pre)
    if src.bool(0.7):
        post = src.choice([1, 3, 10, 300])
        P["post_nms_top_n"] = np.int32(post)
    if src.bool(0.7):
        nms = float(f32(src.choice([0.3, 0.5, 0.7, 0.9])))
        P["nms_thresh"] = f32(nms)
    if src.bool(0.9):
        msize = src.choice([0, 1, 2, 4])
        P["min_size"] = np.int32(msize)
    if src.bool(0.7):
        lo = src.int(0, 3)
        hi = lo + src.weighted([(4, 0), (2, 1), (2, 3)])
        P["min_level"], P["max_level"] = np.int32(lo), np.int32(hi)
    if src.bool(0.5):
        cs, cl = src.choice([16, 32, 64, 224]), src.int(1, 4)
        P["canonical_scale"], P["canonical_level"] = np.int32(cs), np.int32(cl)
    what = f"proposal { {q: v.tolist() for q, v in P.items()} }"
    labels, nt = ["proposal"], False
    with env.session("proposal", nl + 3, P, {}) as s:
        for _ in range(src.weighted([(3, 1), (1, 2)])):
            N = src.weighted([(3, 1), (2, 2), (1, 3)]) if not fpn or True else 1
            base = (src.int(1, 4), src.int(1, 4))
            g = src.nprng()
            feats, all_boxes = [], []
            for i in range(nl):
                H, W = max(base[0] >> i, 1), max(base[1] >> i, 1)
                A = base_anchors(strides[i], ratios, scales if not fpn else scales[:1])
                feats.append(np.zeros((N, src.int(1, 2), H, W), f32))
                yy, xx = np.mgrid[:H, :W] * strides[i]
                sh = np.stack([xx, yy, xx, yy], -1)
                if fpn:
                    all_boxes.append((sh[None] + A[:, None, None]).reshape(-1, 4))
                else:
                    all_boxes.append((sh[:, :, None] + A[None, None]).reshape(-1, 4))
            boxes = np.concatenate(all_boxes)
            M, nA = len(boxes), len(A)
            H, W = feats[0].shape[2:]
            score = g.permutation(N * M).reshape(N, M).astype(f32) / f32(N * M) * f32(.9) + f32(.05)
            delta = (g.standard_normal((N, M, 4)) * src.choice([0.1, 0.4])).astype(f32)
            info = np.asarray([[src.int(10, 90), src.int(10, 90), src.choice([1, 1, 0.5, 2])] for _ in range(N)], f32)
            if fpn:
                S, D = score, delta.transpose(0, 2, 1).copy()
            else:
                S = score.reshape(N, H, W, nA).transpose(0, 3, 1, 2).copy()
                D = delta.reshape(N, H, W, nA * 4).transpose(0, 3, 1, 2).copy()
            w = f"{what} images {N} features {[f.shape for f in feats]} info {info.tolist()}"
            want = []
            for n in range(N):
                k = proposal_ref(boxes, delta[n].astype(np.float64), score[n].astype(np.float64), info[n], pre, post, nms, msize)
                want.append(np.concatenate([np.full((len(k), 1), n), k], 1))
            rois = np.concatenate(want)
            outs = hi - lo + 1
            if outs == 1:
                exp = [rois]
            else:
                z = np.sqrt((rois[:, 3] - rois[:, 1] + 1) * (rois[:, 4] - rois[:, 2] + 1))
                lv = cl + np.log2(np.maximum(z, 1) / cs)
                if (np.abs(lv - np.round(lv)) < 1e-4).any():
                    raise Discard
                lv = np.clip(np.trunc(lv), lo, hi)
                exp = [rois[lv == q] if (lv == q).any() else np.asarray([[0, 0, 0, 1, 1]]) for q in range(lo, hi + 1)]
            got = field(s(*feats, S, D, info), outs, w)
            for q, (a, b) in enumerate(zip(got, exp)):
                near(a, b, f"{w} output {q}", 1e-3)
            nt |= len(rois) > 0
            labels += ["proposal fpn"] * fpn + ["several images"] * (N > 1)
            if src.bool(0.12):
                q = src.choice(["scores", "deltas", "info", "images", "dtype"])
                b = [S, D, info]
                if q == "scores":
                    b[0] = S[:, :-1].copy() if S.shape[1] > 1 else np.zeros((N, 0) + S.shape[2:], f32)
                elif q == "deltas":
                    b[1] = D[:, :-1].copy()
                elif q == "info":
                    b[2] = info[:, :2].copy()
                elif q == "images":
                    b[2] = np.concatenate([info, info])
                else:
                    b[1] = D.astype(np.float64)
                reject(s, feats + b, f"{w} with bad {q}")
                labels.append("bad " + q)
    return {"desc": w[:260] + f" #{src.rec[-2:]}", "labels": labels, "nt": nt}


TARGETS = {"roi": t_roi, "patch": t_patch, "yolo": t_yolo, "poster": t_poster, "prior": t_prior, "detection": t_detection, "proposal": t_proposal}
