"""Pooling (pooling2d, pooling2d_v2, global_pooling2d) and the operators computing dynamic paddings."""
import math
import numpy as np
from tv import fmt, ops
from tv.gen import Violation, Discard
from tv.api import ApiError
from tv.fmt import Node, param, enc_module
from props.P11 import I, pad_of, arr, tol_check

ID = "P13"
RULE = ("pooling with generated size, kernel, stride, asymmetric (also negative) padding, type, parameters given as node params or "
        "run-time inputs, several runs per workbench including failing ones; padding operators with every framework rule, "
        "alone and composed with pooling2d_v2 / conv2d_v2; compared with a direct computation; non-trivial = at least 2 output "
        "elements and a kernel larger than 1; distinct by arguments and data")
CASES = {"quick": 30000, "thorough": 700000}
VARIANTS = ("rel", "asan")
MAX, AVG = 0, 1
BLACK, WHITE = 0, 3
OPTS = [None, "", "--no-pack"]


def setup(libs):
    return ops.Env(libs)


def osize(n, a, b, k, s):
    return math.ceil((n + a + b - k) / s + 1)


def ref_pool(x, p, k, s, kind, ptype):
    oh, ow = osize(x.shape[2], p[0], p[1], k[0], s[0]), osize(x.shape[3], p[2], p[3], k[1], s[1])
    if oh < 1 or ow < 1:
        return None
    out = np.zeros(x.shape[:2] + (oh, ow), np.float64)
    for i in range(oh):
        h0 = i * s[0] - p[0]
        h1 = min(h0 + k[0], x.shape[2])
        h0 = max(h0, 0)
        for j in range(ow):
            w0 = j * s[1] - p[2]
            w1 = min(w0 + k[1], x.shape[3])
            w0 = max(w0, 0)
            if h1 <= h0 or w1 <= w0:
                continue                # nothing to be computed there: 0
            win = x[:, :, h0:h1, w0:w1]
            if kind == MAX:
                out[:, :, i, j] = win.max((2, 3))
            else:
                out[:, :, i, j] = win.sum((2, 3)) / (k[0] * k[1] if ptype == WHITE else win.shape[2] * win.shape[3])
    return out


def geom(src):
    k = src.weighted([(4, (3, 3)), (3, (2, 2)), (1, (1, 1)), (4, (src.int(1, 5), src.int(1, 5)))])
    s = src.weighted([(6, (2, 2)), (2, (1, 1)), (3, (src.int(1, 4), src.int(1, 4)))])
    p = src.weighted([(3, (0,) * 4), (5, tuple(src.int(0, 1) for _ in range(4))), (2, tuple(src.int(0, 3) for _ in range(4))),
                      (1, tuple(src.int(-2, 5) for _ in range(4))), (2, (1, 1, 1, 1))])
    return k, s, p


def psize(src, k, p):
    out = []
    for i in range(2):
        lo = max(1, k[i] - p[2 * i] - p[2 * i + 1])
        out.append(src.weighted([(6, src.int(lo, lo + 8)), (4, src.int(lo, lo + 22)), (1, lo)]))
    return tuple(out)


def t_pool(src, env):
    v2 = src.bool(0.4)
    op = "pooling2d" + ("_v2" if v2 else "")
    dt = src.weighted([(5, np.float32), (1, np.float64)])
    k, s, p = geom(src)
    n, c = src.weighted([(5, 1), (1, 2)]), src.weighted([(4, 1), (3, 2), (1, 5)])
    kind, ptype = src.choice([MAX, MAX, AVG]), src.choice([BLACK, BLACK, WHITE])
    params = {"format": "NCHW"}
    if not (v2 and kind == MAX and src.bool(0.3)):
        params["type"] = np.int32(kind)
    if not (ptype == BLACK and src.bool(0.4)):
        params["padding_type"] = np.int32(ptype)
    ity = src.weighted([(5, np.int32), (1, np.int64), (1, np.int8)])
    P, K, S = pad_of(p).astype(ity), I([1, 1, *k]).astype(ity), I([1, 1, *s]).astype(ity)
    consts = {}
    if v2:
        for i, a in ((1, P), (2, K), (3, S)):
            if src.bool(0.5):
                consts[i] = a
    else:
        params.update(padding=P, ksize=K, stride=S)
    opt, th = src.choice(OPTS), src.choice([None, None, 1, 2, 4])
    nrun = src.weighted([(5, 1), (3, 2), (1, 4)])
    what = f"{op} {np.dtype(dt).name} type {kind} padding_type {ptype} threads {th} const{sorted(consts)}"
    desc, big = what, False
    bad = src.bool(0.15)
    with env.session(op, 4 if v2 else 1, params, consts, options=opt, threads=th) as ses:
        for r in range(nrun):
            if r and v2:
                k2, s2, p2 = geom(src)
                p = p if 1 in consts else p2
                k = k if 2 in consts else k2
                s = s if 3 in consts else s2
                P, K, S = pad_of(p).astype(ity), I([1, 1, *k]).astype(ity), I([1, 1, *s]).astype(ity)
            hw = psize(src, k, p)
            x = arr(src, (n, c) + hw, dt)
            if src.bool(0.3):
                x = x - dt(40)             # all negative: zero is no neutral element of max
            run = f"{what} run {r} x{list(x.shape)} k{k} s{s} pad{p}"
            desc += f" x{list(x.shape)} k{k} s{s} pad{p}"
            if bad and v2 and len(consts) < 3:
                # arguments that are no pooling fail, again and again, and leave the next run alone
                B, i = {1: P, 2: K, 3: S}, src.choice([j for j in (1, 2, 3) if j not in consts])
                how = src.choice(["shape", "channels", "scalar"])
                q = B[i].copy()
                if how == "shape":
                    q = q[:-1]
                elif how == "scalar":
                    q = q.reshape(-1)[0]
                elif i == 1:
                    q[1, 0] = 1
                else:
                    q[1] = 2
                B[i] = q
                for _ in range(2):
                    try:
                        got = ses(x, *[B[j] for j in (1, 2, 3) if j not in consts])
                    except ApiError:
                        continue
                    raise Violation(f"{run}: bad input {i} ({how}) gave a result {[f.shape for f in got]}")
            want = ref_pool(x.astype(np.float64), p, k, s, kind, ptype)
            xs = [x] + [a for j, a in ((1, P), (2, K), (3, S)) if v2 and j not in consts]
            if want is None:
                try:
                    got = ses(*xs)
                except ApiError:
                    continue
                raise Violation(f"{run}: no output size, but got a result {[f.shape for f in got]}")
            got = ses(*xs)
            mag = np.full(want.shape, 0.0 if kind == MAX else float(np.abs(x).max(initial=0)))
            tol_check(got, want, mag, float(np.finfo(dt).eps) * (2 + k[0] * k[1]), run, dt)
            big = big or (want.size >= 2 and k != (1, 1))
    return {"desc": f"{desc} #{src.rec[-3:]}", "nt": big,
            "labels": [op, ["max", "avg"][kind], "white" if ptype == WHITE else "black", f"k{k[0]}x{k[1]}s{s[0]}x{s[1]}" if k in (
                (2, 2), (3, 3)) and s == (2, 2) else "k other", "padded" if any(p) else "unpadded",
                "negative padding" if min(p) < 0 else "padding >= 0"] + (["failing runs"] if bad and v2 else [])}


def t_global(src, env):
    dt = src.weighted([(3, np.float32), (1, np.float64)])
    kind = src.choice([MAX, AVG])
    with env.session("global_pooling2d", 1, {"format": "NCHW", "type": np.int32(kind)}, {}) as ses:
        for r in range(src.int(1, 3)):
            x = arr(src, (src.int(1, 3), src.int(1, 5), src.int(1, 12), src.int(1, 12)), dt)
            x6 = x.astype(np.float64)
            want = (x6.max((2, 3), keepdims=True) if kind == MAX else x6.mean((2, 3), keepdims=True))
            mag = np.full(want.shape, 0.0 if kind == MAX else float(np.abs(x).max(initial=0)))
            tol_check(ses(x), want, mag, float(np.finfo(dt).eps) * (2 + x.shape[2] * x.shape[3]), f"global_pooling2d type {kind} run "
                      f"{r} x{list(x.shape)}", dt)
    return {"desc": f"global {kind} {np.dtype(dt).name} {list(x.shape)} #{src.rec[-3:]}", "nt": want.size >= 2 and x.size > want.size,
            "labels": ["global", ["max", "avg"][kind]]}


def rule(fw, mode, n, sp, k, s):
    """documented (output size, dynamic padding before, after) along one dimension"""
    a, b = sp
    m = n + a + b
    if fw == "tf" or (fw == "onnx" and mode in ("VALID", "SAME_UPPER", "SAME_LOWER")):
        if mode == "VALID":
            o = math.ceil((m - k + 1) / s)
        else:
            o = math.ceil(m / s)
    elif fw == "mx" and mode == "0":
        return math.ceil((m - k) / s + 1), a, b
    else:
        o = math.floor((m - k) / s + 1)
    need = (o - 1) * s + k - m                 # to be added to the static padding
    if mode in ("SAME", "SAME_UPPER"):
        lo = need // 2
    elif mode == "SAME_LOWER":
        lo = need - need // 2
    else:
        lo = 0
    if mode.startswith("SAME") and need < 0:
        return o, None, a + b + need            # only the sum is specified
    return o, a + lo, b + need - lo


def t_padding(src, env):
    fw = src.choice(["tf", "tfconv", "mx", "onnx"])
    nhwc = fw in ("tf", "mx") and src.bool(0.3)
    hw = (src.int(1, 24), src.int(1, 24))
    k = (src.int(1, 5), src.int(1, 5))
    s = (src.int(1, 4), src.int(1, 4))
    d = (src.int(1, 3), src.int(1, 3)) if fw == "tfconv" else (1, 1)
    sp = src.weighted([(4, (0,) * 4), (2, tuple(src.int(0, 2) for _ in range(4)))])
    if fw == "mx":
        mode = src.choice(["0", "1"])
    elif fw == "onnx":
        mode = src.choice(["NOTSET", "VALID", "SAME_UPPER", "SAME_LOWER"])
    else:
        mode = src.choice(["SAME", "VALID"])
    e = [(k[i] - 1) * d[i] + 1 for i in range(2)]
    if any(hw[i] + sp[2 * i] + sp[2 * i + 1] < e[i] for i in range(2)) and not mode.startswith("SAME"):
        raise Discard("kernel larger than the padded input")
    four = lambda v: I([1, v[0], v[1], 1] if nhwc else [1, 1, v[0], v[1]])
    four2 = lambda p: I([[0, 0], [p[0], p[1]], [p[2], p[3]], [0, 0]] if nhwc else [[0, 0], [0, 0], [p[0], p[1]], [p[2], p[3]]])
    c = src.int(1, 3)
    xs = (1,) + hw + (c,) if nhwc else (1, c) + hw
    x = arr(src, xs, np.float32)
    params = {"format": "NHWC" if nhwc else "NCHW"}
    if fw == "onnx":
        params = {}
    if any(sp) or fw == "mx" or src.bool(0.5):
        params["padding"] = four2(sp)
    if fw == "mx":
        params["valid"] = np.int32(mode)
        op = "_mx_pooling2d_padding"
    elif fw == "onnx":
        if mode != "NOTSET" or src.bool(0.5):
            params["auto_pad"] = mode
        op = "_onnx_pooling2d_padding"
    else:
        params["padding_method"] = mode
        op = "_tf_conv2d_padding" if fw == "tfconv" else "_tf_pooling2d_padding"
    o = src.int(1, 3)
    if fw == "tfconv":
        params["stride"] = four(s)
        if d != (1, 1) or src.bool(0.5):
            params["dilation"] = four(d)
        w = arr(src, (o,) + k + (c,) if nhwc else (o, c) + k, np.float32)
        second = [w]
    else:
        second = [four(k), four(s)]
    compose = not nhwc and src.bool(0.6)
    kind = src.choice([MAX, AVG])
    want, specified = [], True
    for i in range(2):
        out, a, b = rule("tf" if fw == "tfconv" else fw, mode, hw[i], sp[2 * i:2 * i + 2], e[i], s[i])
        want.append((out, a, b))
    what = f"{op} {params.get('format')} {mode} x{list(xs)} k{k} s{s} d{d} static padding {sp} inputs {len(second)}"
    nodes = [param(f"i{i}") for i in range(1 + len(second))]
    wconst = src.bool(0.5)
    if wconst:
        nodes[1:] = [fmt.const(a) for a in second]
    pn = Node(op, nodes, "padding", params=params)
    outs = [pn]
    if compose and fw == "tfconv":
        outs.append(Node("conv2d_v2", [nodes[0], pn, nodes[1]], "y", params={"format": "NCHW", "stride": four(s),
                                                                             "dilation": four(d)}))
    elif compose:
        outs.append(Node("pooling2d_v2", [nodes[0], pn] + nodes[1:], "y", params={"format": "NCHW", "type": np.int32(kind)}))
    ins = [q for q in nodes if q.op == "<param>"]
    res = env.t.exec(enc_module(ins, outs), [x] + ([] if wconst else second), src.choice(OPTS))
    P = res[0][0]
    if P.shape != (4, 2) or P.dtype != fmt.ID[np.dtype(np.int32)]:
        raise Violation(f"{what}: padding is {P}")
    g = P.np().tolist()
    pos = (1, 2) if nhwc else (2, 3)
    for i in range(4):
        if i not in pos:
            ok, w_ = g[i] == [0, 0], [0, 0]
        else:
            out, a, b = want[pos.index(i)]
            if a is None:
                ok, w_ = sum(g[i]) == b, f"sum {b}"
            else:
                ok, w_ = g[i] == [a, b], [a, b]
        if not ok:
            raise Violation(f"{what}: padding of dimension {i} is {g[i]}, documented {w_}")
    if compose:
        y = res[1][0]
        p = tuple(g[2] + g[3])
        if y.shape[2:] != (want[0][0], want[1][0]):
            raise Violation(f"{what}: composed output has shape {list(y.shape)}, documented size {want[0][0]}x{want[1][0]}")
        if fw == "tfconv":
            if min(p) >= 0:
                from props.P11 import ref_conv
                ref = ref_conv(x.astype(np.float64), w.astype(np.float64), p, s, d, 0.0)
                mag = ref_conv(np.abs(x).astype(np.float64), np.abs(w).astype(np.float64), p, s, d, 0.0)
                tol_check(res[1], ref, mag, 1e-5, what + " conv2d_v2", np.float32)
        else:
            ref = ref_pool(x.astype(np.float64), p, k, s, kind, BLACK)
            tol_check(res[1], ref, np.full(ref.shape, float(np.abs(x).max(initial=0))), 1e-5, what + " pooling2d_v2", np.float32)
    return {"desc": f"{what} #{src.rec[-3:]}", "nt": any(a is None or (a, b) != tuple(sp[2 * i:2 * i + 2]) for i, (_, a, b) in
                                                        enumerate(want)) or compose,
            "labels": [op, mode, "composed" if compose else "alone", "NHWC" if nhwc else "NCHW"]}


def t_reject(src, env):
    v = src.choice(["nhwc", "rank", "copy padding", "dtype", "ksize channels", "unknown type"])
    params = {"format": "NCHW", "type": np.int32(src.choice([MAX, AVG])), "padding": pad_of((0,) * 4), "ksize": I([1, 1, 2, 2]),
              "stride": I([1, 1, src.int(1, 2), 2])}
    x = arr(src, (1, 2, src.int(2, 8), src.int(2, 8)), np.float32)
    if v == "nhwc":
        params["format"] = "NHWC"
    elif v == "rank":
        x = x[0]
    elif v == "copy padding":
        params["padding_type"] = np.int32(src.choice([1, 2]))
    elif v == "dtype":
        x = x.astype(src.choice([np.int32, np.uint8]))
    elif v == "ksize channels":
        params[src.choice(["ksize", "stride"])] = I([1, 2, 2, 2])
    else:
        params["type"] = np.int32(src.choice([2, -1, 9]))
    try:
        with env.session("pooling2d", 1, params, {}) as ses:
            got = ses(x)
    except ApiError:
        return {"desc": f"reject {v} #{src.rec[-2:]}", "nt": True, "labels": ["reject " + v]}
    raise Violation(f"pooling2d with {v}: x{list(x.shape)} {x.dtype} {params} gave a result {[f.shape for f in got]}")


TARGETS = {"pool": t_pool, "global": t_global, "padding": t_padding, "reject": t_reject}
WEIGHTS = {"pool": 18, "global": 2, "padding": 9, "reject": 1}
