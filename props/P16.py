"""Layout / data-movement operators against numpy."""
import numpy as np
from tv import fmt, ops
from tv.api import ApiError
from tv.gen import Violation, Discard

ID = "P16"
RULE = ("one data-movement operator (25 operators) on a generated tensor (rank 0-6, any numeric type) with generated "
        "parameters, parameter tensors given as run-time inputs or model constants; results compared bit for bit; layouts that do not exist have to be refused (16 operators); "
        "non-trivial = at least 2 output elements; distinct by operator, parameters, shapes and data seed")
CASES = {"quick": 45000, "thorough": 1200000}
VARIANTS = ("rel", "asan")
ALL = [np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64, np.uint64, np.float32, np.float64]
I32 = lambda x: np.asarray(x, np.int32)


def setup(libs):
    return ops.Env(libs)


def arr(src, shape, dt=None):
    dt = dt or src.choice(ALL)
    n = fmt.prod(shape)
    if src.bool(0.5):
        return (np.arange(n) % 120 + 1).astype(dt).reshape(shape)
    if np.dtype(dt).kind == "f":
        return src.farray(shape, dt)
    return src.iarray(shape, dt)


def sh(src, lo=0, hi=5, mx=8, limit=1500):
    return src.shape(src.int(lo, hi), hi=mx, limit=limit)


def out1(what, out, want, dt=None):
    ops.check(out, want, 0, 0, what, dtype=dt)


def done(what, src, n, labels=()):
    return {"desc": f"{what} #{src.rec[-3:]}", "nt": n >= 2, "labels": list(labels)}


def split_shape(src, n):
    """random factorisation of n"""
    s = []
    while n > 1 and len(s) < 5 and src.bool(0.75):
        ds = [d for d in range(1, n + 1) if n % d == 0]
        d = src.choice(ds)
        s.append(d)
        n //= d
    s.insert(src.int(0, len(s)), n)
    return s


def t_reshape(src, env):
    op = src.choice(["_reshape", "_reshape_v2", "flatten", "flatten2d", "squeeze", "unsqueeze"])
    s = sh(src, 1 if op.startswith("_re") or op == "flatten" else 0)
    x = arr(src, s)
    P, ins, cok = {}, [x], ()
    if op in ("_reshape", "_reshape_v2"):
        ns = split_shape(src, x.size)
        w = x.reshape(ns)
        sp = list(ns)
        if src.bool(0.5):
            sp[src.raw(len(sp))] = -1
        for i in range(min(len(sp), x.ndim)):
            if sp[i] == x.shape[i] and src.bool(0.3):
                sp[i] = 0
        if op == "_reshape":
            P["shape"] = I32(sp)
        else:
            ins.append(np.asarray(sp, src.choice([np.int32, np.int64])))
            cok = (1,)
    elif op == "flatten":
        d = src.int(-x.ndim, min(x.ndim + 1, 6))
        if not (d == 1 and src.bool()):
            P["dim"] = np.int32(d)
        k = d if d >= 0 else d + x.ndim
        if k < x.ndim:
            w = x.reshape(x.shape[:k] + (-1,)) if x.ndim else x
        else:
            w = x.reshape(x.shape + (1,) * (k + 1 - x.ndim))
    elif op == "flatten2d":
        d = src.int(-x.ndim, x.ndim)
        if not (d == 1 and src.bool()):
            P["dim"] = np.int32(d)
        k = d if d >= 0 else d + x.ndim
        k = min(k, x.ndim)
        w = x.reshape(fmt.prod(x.shape[:k]), fmt.prod(x.shape[k:]))
    elif op == "squeeze":
        s = list(s)
        for _ in range(src.int(0, 2)):
            s.insert(src.int(0, len(s)), 1)
        x = x.reshape(s)
        ins = [x]
        ones = [i for i, d in enumerate(s) if d == 1]
        axes = src.subset(ones)
        if axes:
            w = np.squeeze(x, tuple(axes))
            # the last axis may be counted from the end
            P["axes"] = I32(axes[:-1] + [axes[-1] - len(s)] if src.bool(0.3) else axes)
        else:
            w = np.squeeze(x)
    else:
        axes = []
        n = x.ndim
        w = x
        for _ in range(src.int(1, min(3, 7 - n))):
            a = src.int(-n - (1 if n else 1), n)
            if a < -n:
                a = 0 if n == 0 else -n
            axes.append(a)
            w = np.expand_dims(w, a)
            n += 1
        P["axes"] = I32(axes)
    what = f"{op}({P}{ins[1] if len(ins) > 1 else ''}, {ops.ndesc(x)})"
    out1(what, ops.run_op(src, env, op, ins, P, cok), w)
    return done(what, src, w.size, [op])


def t_transpose(src, env):
    mode = src.weighted([(6, "perm"), (2, "expand"), (2, "default"), (4, "image")])
    if mode == "image":
        # images between NCHW and NHWC, where fast paths live
        s = tuple(src.int(1, m) for m in (2, 7, 9, 9))
        x = arr(src, s, np.float32 if src.bool(0.7) else None)
    else:
        s = sh(src, 1, 6)
        x = arr(src, s)
    nd = x.ndim
    P = {}
    if mode == "image":
        p = src.choice([[0, 3, 1, 2], [0, 2, 3, 1]])
        P["permute"] = I32(p)
        w = x.transpose(p)
    elif mode == "default":
        w = np.swapaxes(x, -1, -2) if nd >= 2 else x
    else:
        extra = min(src.int(1, 2), 7 - nd) if mode == "expand" else 0
        p = src.perm(nd + extra)
        P["permute"] = I32(p)
        w = x.reshape((1,) * extra + s).transpose(p)
    what = f"_transpose({P}, {ops.ndesc(x)})"
    out1(what, ops.run_op(src, env, "_transpose", [x], P), w)
    return done(what, src, w.size, [mode])


def t_join(src, env):
    op = src.choice(["concat", "stack"])
    k = src.int(1, 5)
    s = sh(src, 1 if op == "concat" else 0, 5, 6, 400)
    dt = src.choice(ALL)
    nd = len(s)
    if op == "concat":
        d = src.raw(nd)
        xs = []
        for _ in range(k):
            t = list(s)
            t[d] = src.int(1, 6)
            xs.append(arr(src, t, dt))
        w = np.concatenate(xs, d)
        P = {"dim": np.int32(d - nd if src.bool(0.4) else d)}
    else:
        xs = [arr(src, s, dt) for _ in range(k)]
        d = src.int(0, nd)
        w = np.stack(xs, d)
        P = {"axis": np.int32(d - nd - 1 if src.bool(0.4) else d)}
        if d == 0 and src.bool(0.5):
            P = {}
    what = f"{op}({P}, {[ops.ndesc(x) for x in xs]})"
    out1(what, ops.run_op(src, env, op, xs, P, range(k)), w)
    return done(what, src, w.size, [op])


def t_part(src, env):
    op = src.choice(["chunk", "split"])
    s = list(sh(src, 1, 5))
    nd = len(s)
    d = src.raw(nd)
    dneg = np.int32(d - nd if src.bool(0.4) else d)
    if op == "chunk":
        c = src.int(1, 5)
        s[d] = max(s[d], c) if src.bool(0.6) else c * src.int(1, 3)
        x = arr(src, s)
        P = {"chunks": np.int32(c), "dim": dneg}
        if nd >= 2 and d == nd - 2 and src.bool(0.5):
            del P["dim"]
        out = ops.run_op(src, env, op, [x], P)
        what = f"chunk({P}, {ops.ndesc(x)})"
        if len(out) > c or (s[d] % c == 0 and len(out) != c):
            raise Violation(f"{what}: {len(out)} pieces")
        a = [o.np() for o in out]
        n = [v.shape[d] if v.ndim == nd else -1 for v in a]
        if sum(n) != s[d] or min(n) < 1 or (s[d] % c == 0 and len(set(n)) != 1):
            raise Violation(f"{what}: piece sizes {n}")
        ops.compare(np.concatenate(a, d), x, 0, 0, what + " joined")
    else:
        parts = [src.int(1, 4) for _ in range(src.int(1, 5))]
        s[d] = sum(parts)
        x = arr(src, s)
        P = {"axis": dneg}
        out = ops.run_op(src, env, op, [x, np.asarray(parts, src.choice([np.int32, np.int64]))], P, (1,))
        what = f"split({P}, {ops.ndesc(x)}, {parts})"
        w = np.split(x, np.cumsum(parts)[:-1], d)
        if len(out) != len(w):
            raise Violation(f"{what}: {len(out)} pieces")
        for i, (a, b) in enumerate(zip(out, w)):
            out1(f"{what}[{i}]", a, b)
    return done(what, src, x.size, [op])


def t_pad(src, env):
    op = src.choice(["pad", "crop_nd", "crop_to"])
    s = sh(src, 1, 5, 8, 600)
    nd = len(s)
    x = arr(src, s)
    if op == "pad":
        style = src.choice(["nonneg", "mixed", "zero"])
        pad = []
        for n in s:
            a, b = (0, 0) if style == "zero" else (src.int(0, 3), src.int(0, 3))
            if style == "mixed":
                a, b = src.int(-min(2, n - 1), 3), src.int(-2, 3)
                b = max(b, 1 - n - min(a, 0) - max(a, 0) + max(a, 0))
                if n + min(a, 0) + min(b, 0) < 1:
                    b = 0
            pad.append([a, b])
        P = {}
        v = 0
        if src.bool(0.5):
            v = src.choice([0, 1, 7, 100])
            if np.dtype(x.dtype).kind == "f" and src.bool():
                v = src.choice([-1.5, 0.25])
            P["padding_value"] = np.float32(v)
        w = np.pad(x, [(max(a, 0), max(b, 0)) for a, b in pad], constant_values=x.dtype.type(v))
        w = w[tuple(slice(-min(a, 0), w.shape[i] + min(b, 0)) for i, (a, b) in enumerate(pad))]
        out = ops.run_op(src, env, op, [x, np.asarray(pad, src.choice([np.int32, np.int64]))], P, (1,))
        what = f"pad({P}, {ops.ndesc(x)}, {pad})"
    elif op == "crop_nd":
        P = {}
        size = [src.int(1, 9) if src.bool(0.8) else -1 for _ in s]
        shift = None
        if src.bool(0.5):
            shift = [src.int(0, n - 1) if src.bool(0.7) else -src.int(0, 2) for n in s]
            P["shift"] = I32(shift)
        w = x
        for i, n in enumerate(s):
            m = size[i] if size[i] > 0 else n
            lo = shift[i] if shift is not None else -int((m - n) / 2)
            if shift is None and size[i] <= 0:
                lo = 0
            idx = np.arange(lo, lo + m)
            ok = (idx >= 0) & (idx < n)
            if not ok.any():
                raise Discard()
            w = np.take(w, np.where(ok, idx, 0), i)
            w = np.where(ok.reshape([-1 if j == i else 1 for j in range(nd)]), w, x.dtype.type(0)).astype(x.dtype)
        out = ops.run_op(src, env, op, [x, I32(size)], P, (1,))
        what = f"crop_nd({P}, {ops.ndesc(x)}, {size})"
    else:
        P = {}
        if nd < 3 or src.bool(0.6):
            ax = src.raw(nd)
            P["axis"] = np.int32(ax - nd if src.bool(0.4) else ax)
        else:
            ax = 2
        off = [0] * (nd - ax)
        if src.bool(0.6):
            off = [src.int(0, s[ax + i] - 1) for i in range(nd - ax)]
            P["offset"] = I32(off)
        ys = [src.int(1, 4) for _ in range(ax)] + [src.int(1, s[ax + i] - off[i]) for i in range(nd - ax)]
        w = x[tuple([slice(None)] * ax + [slice(o, o + m) for o, m in zip(off, ys[ax:])])]
        what = f"crop_to({P}, {ops.ndesc(x)}, {ys})"
        warm = None
        if "offset" not in P:
            # the same operator first runs on an input of another rank (the axis may be given from the end)
            k = ax if P.get("axis", 2) >= 0 else nd - ax
            wn = src.int(max(1, k + (1 if P.get("axis", 2) >= 0 else 0)), 5)
            warm = [arr(src, (3,) * wn, x.dtype), np.zeros((2,) * wn, x.dtype)]
            if P.get("axis", 2) >= 0:
                warm[1] = np.zeros((3,) * ax + (2,) * (wn - ax), x.dtype)
        out = ops.run_op(src, env, op, [x, np.zeros(ys, x.dtype)], P, warm=warm)
    out1(what, out, w)
    return done(what, src, w.size, [op])


def t_repeat(src, env):
    op = src.choice(["tile", "tile_v2", "broadcast", "dimshuffle", "_expand"])
    s = sh(src, 0 if op == "broadcast" else 1, 4, 6, 200)
    nd = len(s)
    x = arr(src, s)
    P, ins, cok = {}, [x], ()
    if op in ("tile", "tile_v2"):
        r = [src.int(1, 3) for _ in range(src.int(1, min(nd + 1, 4)))]
        w = np.tile(x, r)
        if op == "tile":
            P["repeats"] = I32(r)
        else:
            ins.append(np.asarray(r, src.choice([np.int32, np.int64])))
            cok = (1,)
        what = f"{op}({r}, {ops.ndesc(x)})"
    elif op == "broadcast":
        t = [src.int(1, 4) if d == 1 or src.bool(0.2) else d for d in s]
        x = arr(src, [1 if src.bool(0.4) else d for d in t])
        ins = [x]
        lead = [src.int(1, 3) for _ in range(src.int(0, 2))]
        t = lead + [1 if d == x.shape[i] and src.bool(0.3) else d for i, d in enumerate(t)]
        if src.bool(0.2) and not lead:
            k = 0
            while k < len(t) and src.bool(0.4):
                k += 1
            t = t[k:]
        ins.append(np.asarray(t, src.choice([np.int32, np.int64])))
        if not t:
            raise Discard()
        cok = (1,)
        w = np.broadcast_to(x, np.broadcast_shapes(x.shape, tuple(t)))
        what = f"broadcast({t}, {ops.ndesc(x)})"
    elif op == "dimshuffle":
        d = src.raw(nd)
        idx = [src.raw(s[d]) for _ in range(src.int(1, 6))]
        P = {"dim": np.int32(d), "shuffle": I32(idx)}
        w = np.take(x, idx, d)
        op = "_dimshuffle"
        what = f"{op}({P}, {ops.ndesc(x)})"
    else:
        k = src.int(nd, min(nd + 3, 7))
        inv = src.bool(0.4)
        need = k - nd
        ins.append(np.int32(k))
        cok = (1,)
        if inv:
            P["inverse"] = True
        lim = None
        if src.bool(0.5):
            lim = src.int(0, need)
            P["end" if inv else "front"] = np.int32(lim)
        first = need if lim is None else min(lim, need)
        rest = need - first
        front, end = (rest, first) if inv else (first, rest)
        w = x.reshape((1,) * front + s + (1,) * end)
        what = f"_expand({P}, {ops.ndesc(x)}, {k})"
    out1(what, ops.run_op(src, env, op, ins, P, cok), w)
    return done(what, src, w.size, [op])


def t_block(src, env):
    op = src.choice(["batch_to_space4d", "space_to_batch4d"])
    bh, bw = src.int(1, 3), src.int(1, 3)
    dt = src.choice(ALL)
    if op == "space_to_batch4d":
        n, c = src.int(1, 3), src.int(1, 4)
        p = [[src.int(0, 2), src.int(0, 2)] for _ in range(2)]
        oh, ow = src.int(1, 4), src.int(1, 4)
        h, w_ = oh * bh - sum(p[0]), ow * bw - sum(p[1])
        if h < 1 or w_ < 1:
            raise Discard()
        x = arr(src, (n, c, h, w_), dt)
        P = {"padding": I32(p), "block_shape": I32([bh, bw])}
        y = np.pad(x, [(0, 0), (0, 0), tuple(p[0]), tuple(p[1])])
        y = y.reshape(n, c, oh, bh, ow, bw).transpose(3, 5, 0, 1, 2, 4).reshape(bh * bw * n, c, oh, ow)
    else:
        n, c, h, w_ = src.int(1, 3), src.int(1, 4), src.int(1, 4), src.int(1, 4)
        x = arr(src, (n * bh * bw, c, h, w_), dt)
        y = x.reshape(bh, bw, n, c, h, w_).transpose(2, 3, 4, 0, 5, 1).reshape(n, c, h * bh, w_ * bw)
        cr = [[src.int(0, 2), src.int(0, 2)] for _ in range(2)]
        if sum(cr[0]) >= h * bh or sum(cr[1]) >= w_ * bw:
            raise Discard()
        P = {"crop": I32(cr), "block_shape": I32([bh, bw])}
        y = y[:, :, cr[0][0]:h * bh - cr[0][1], cr[1][0]:w_ * bw - cr[1][1]]
    what = f"{op}({[(k, v.tolist()) for k, v in P.items()]}, {ops.ndesc(x)})"
    out1(what, ops.run_op(src, env, op, [x], P), y)
    return done(what, src, y.size, [op])


def t_shape(src, env):
    op = src.choice(["_shape", "_dims", "constant_of_shape", "range", "_copy"])
    P = {}
    if op == "_shape":
        x = arr(src, sh(src, 0, 6))
        w, ins = I32(x.shape), [x]
        w = w.reshape(x.ndim)
    elif op == "_dims":
        x = arr(src, sh(src, 0, 6))
        w, ins = np.int32(x.ndim), [x]
    elif op == "_copy":
        x = arr(src, sh(src, 0, 5))
        w, ins = x, [x]
    elif op == "constant_of_shape":
        s = sh(src, 1, 4, 6, 300)
        ins = [np.asarray(s, src.choice([np.int32, np.int64]))]
        if src.bool(0.75):
            v = arr(src, (1,) if src.bool() else ())
            P["value"] = v
            w = np.full(s, v.ravel()[0], v.dtype)
        else:
            w = np.zeros(s, np.float32)
    else:
        dt = src.choice([np.int32, np.int32, np.int64, np.int16, np.float32, np.float64])
        st, n, de = src.int(-20, 20), src.int(1, 12), src.choice([1, 2, 3, 5, -1, -2, -3])
        li = st + n * de - (src.raw(abs(de)) * (1 if de > 0 else -1))
        ins = [np.asarray(v, dt) for v in (st, li, de)]
        w = np.arange(st, li, de).astype(dt)
    what = f"{op}({P}, {[ops.ndesc(i) if i.ndim and op != 'constant_of_shape' else i for i in ins]})"
    out1(what, ops.run_op(src, env, op, ins, P, range(len(ins)) if op == "range" else ()), w)
    return done(what, src, w.size, [op])


def t_refuse(src, env):
    """layouts that do not exist: an error, no result"""
    op = src.choice(["_reshape", "_reshape_v2", "squeeze", "unsqueeze", "_transpose", "concat", "stack", "split", "chunk", "pad", "tile", "broadcast",
                     "_dimshuffle", "batch_to_space4d", "space_to_batch4d", "crop_to", "range"])
    s = list(sh(src, 1, 4, 5, 200))
    nd = len(s)
    dt = src.choice(ALL)
    P, cok = {}, ()
    over = lambda lo, hi: src.choice([hi + 1, hi + src.int(1, 9), lo - 1, lo - src.int(1, 9), 1 << 20, -(1 << 20)])
    if op in ("_reshape", "_reshape_v2"):
        k = src.choice(["count", "two open", "does not divide"])
        n = fmt.prod(s)
        if k == "count":
            ns = split_shape(src, n + src.choice([1, 2, n, -1]) or 2)
            if fmt.prod(ns) == n:
                raise Discard()
        elif k == "two open":
            ns = split_shape(src, n) + [-1]
            ns.insert(src.int(0, len(ns)), -1)
        else:
            d = src.int(2, 11)
            if n % d == 0:
                raise Discard()
            ns = [d, -1][::src.choice([1, -1])]
        ins = [arr(src, s, dt)]
        if op == "_reshape":
            P["shape"] = I32(ns)
        else:
            ins.append(I32(ns))
            cok = (1,)
        k += f" {ns}"
    elif op in ("squeeze", "unsqueeze"):
        k = src.choice(["range", "size"]) if op == "squeeze" else "range"
        if k == "size":
            d = src.raw(nd)
            s[d] = src.int(2, 4)
            a = [d - nd if src.bool(0.3) else d]
        else:
            a = [over(-nd - (op == "unsqueeze"), nd - (op == "squeeze"))]
        if op == "unsqueeze" and src.bool(0.3):
            a = [0] + [v + 1 if v > 0 else v - 1 for v in a]
        P["axes"] = I32(a)
        ins = [arr(src, s, dt)]
        k += f" {a}"
    elif op == "_transpose":
        p = src.perm(nd)
        k = src.choice(["range", "twice"])
        if k == "range":
            p[src.raw(nd)] = over(-nd, nd - 1)
        else:
            if nd < 2:
                raise Discard()
            i = src.int(1, nd - 1)
            p[i] = p[src.raw(i)]
        P["permute"] = I32(p)
        ins = [arr(src, s, dt)]
        k += f" {p}"
    elif op in ("concat", "stack"):
        n = src.int(2, 4)
        d = src.raw(nd)
        k = src.choice(["axis", "sizes", "rank"])
        xs = [list(s) for _ in range(n)]
        j = src.raw(n)
        if k == "sizes":
            if op == "concat":
                if nd < 2:
                    raise Discard()
                i = (d + src.int(1, nd - 1)) % nd
            else:
                i = src.raw(nd)
            xs[j][i] += src.int(1, 3)
        elif k == "rank":
            xs[j] = xs[j] + [1] if src.bool() else [1] + xs[j]
        else:
            d = over(-nd - (op == "stack"), nd - (op == "concat"))
        P["dim" if op == "concat" else "axis"] = np.int32(d)
        ins = [arr(src, x, dt) for x in xs]
        cok = range(n)
        k += f" {xs}"
    elif op in ("split", "chunk"):
        k = src.choice(["axis", "sizes"])
        d = src.raw(nd) if k == "sizes" else over(-nd, nd - 1)
        ins = [arr(src, s, dt)]
        if op == "chunk":
            c = src.choice([0, -1, s[d] + 1, s[d] + 5]) if k == "sizes" else src.int(1, 3)
            P["chunks"], P["dim"] = np.int32(c), np.int32(d)
            k += f" {c}"
        else:
            parts = [src.int(1, 3) for _ in range(src.int(1, 4))]
            if k == "sizes" and sum(parts) <= s[d]:
                s[d] = sum(parts) - 1
                if not s[d]:
                    raise Discard()
                ins = [arr(src, s, dt)]
            ins.append(I32(parts))
            P["axis"] = np.int32(d)
            cok = (1,)
            k += f" {parts}"
    elif op == "pad":
        k = src.choice(["rank", "columns"])
        if k == "rank":
            m = src.choice([nd - 1, nd + 1])
            if m < 1:
                raise Discard()
            pad = [[1, 0]] * m
        else:
            m = src.choice([1, 3])
            pad = [[1] * m for _ in s]
        ins = [arr(src, s, dt), I32(pad)]
        cok = (1,)
        k += f" {pad}"
    elif op == "tile":
        r = [src.int(1, 3) for _ in range(nd)]
        r[src.raw(nd)] = src.choice([-1, -2, -100])
        k = f"negative {r}"
        P["repeats"] = I32(r)
        ins = [arr(src, s, dt)]
    elif op == "broadcast":
        i = src.raw(nd)
        s[i] = src.int(2, 4)
        t = list(s)
        t[i] = s[i] + src.int(1, 3)
        t = [src.int(1, 2) for _ in range(src.int(0, 2))] + t
        k = f"sizes {t}"
        ins = [arr(src, s, dt), I32(t)]
        cok = (1,)
    elif op == "_dimshuffle":
        d = src.raw(nd)
        idx = [src.raw(s[d]) for _ in range(src.int(1, 4))]
        k = src.choice(["dim", "index"])
        if k == "dim":
            d = over(-nd, nd - 1)
        else:
            idx[src.raw(len(idx))] = over(0, s[d] - 1)
        P = {"dim": np.int32(d), "shuffle": I32(idx)}
        ins = [arr(src, s, dt)]
        k += f" {idx}"
    elif op in ("batch_to_space4d", "space_to_batch4d"):
        bh, bw = src.int(1, 3), src.int(1, 3)
        a = [[0, 0], [0, 0]]
        k = src.choice(["block", "rank", "multiple"] + (["crop"] if op[0] == "b" else []))
        x = [bh * bw * 2, 2, 2, 3] if op[0] == "b" else [2, 2, bh * 2, bw]
        if k == "block":
            bh, bw = src.choice([(0, 1), (1, 0), (-1, 1), (-1, -1), (2, -3), (0, 0)])
        elif k == "rank":
            x = x + [1] if src.bool() else x[:3]
        elif k == "crop":
            i = src.raw(2)
            t = [2 * bh, 3 * bw][i] + src.int(1, 2)
            a[i][0] = src.int(0, t)
            a[i][1] = t - a[i][0]
        else:
            bh = bw = src.int(2, 3)
            if op[0] == "b":
                x[0] = bh * bw * 2 + src.int(1, bh * bw - 1)
            else:
                i = src.raw(2)
                x = [2, 2, bh, bw]
                a[i][src.raw(2)] = src.int(1, bh - 1)
        P = {"crop" if op[0] == "b" else "padding": I32(a), "block_shape": I32([bh, bw])}
        ins = [arr(src, x, dt)]
    elif op == "crop_to":
        ax = over(-nd, nd - 1)
        P["axis"] = np.int32(ax)
        k = "axis"
        ins = [arr(src, s, dt), np.zeros([1] * nd, dt)]
    else:
        k = "delta 0"
        ins = [np.asarray(v, np.int32) for v in (src.int(-5, 5), src.int(-5, 5), 0)]
        cok = range(3)
    what = f"{op} {k} ({P}, {[list(x.shape) for x in ins]})"
    try:
        got = ops.run_op(src, env, op, ins, P, cok)
    except ApiError:
        return {"desc": what, "nt": True, "labels": [op, "refused"]}
    raise Violation(f"{what}: a result {[(list(f.shape)) for f in got]} instead of an error", sig=f"refuse {op} {k.split()[0]}")


TARGETS = {"reshape": t_reshape, "transpose": t_transpose, "join": t_join, "part": t_part, "pad": t_pad,
           "repeat": t_repeat, "block": t_block, "shape": t_shape, "refuse": t_refuse}
WEIGHTS = {"reshape": 3, "transpose": 3, "join": 3, "part": 3, "pad": 4, "repeat": 4, "block": 2, "shape": 2, "refuse": 3}
