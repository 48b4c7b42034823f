"""Indexing / slicing / selection operators against numpy."""
import numpy as np
from tv import fmt, ops
from tv.api import ApiError
from tv.gen import Violation, Discard
from props.P16 import arr, sh, ALL, I32

ID = "P17"
RULE = ("one indexing operator (slice, slice_v2, slice_v3, strided_slice, gather, gatherv2, gather_elements, scatter_nd, "
        "topkv2, non_max_suppression_v3) on a generated tensor with generated indices/ranges (negative, out-of-range ends, "
        "negative strides, ellipsis/new-axis/shrink masks), parameters as inputs or constants; selections that do not exist have to be refused; non-trivial = the output has "
        "at least 2 elements or the input at least 4; distinct by operator, parameters, shapes and data seed")
CASES = {"quick": 40000, "thorough": 700000}


VARIANTS = ("rel", "asan")


def setup(libs):
    return ops.Env(libs)


def fin(what, src, n, labels=()):
    return {"desc": f"{what[:300]} #{src.rec[-3:]}", "nt": n >= 2, "labels": list(labels)}


def t_slice(src, env):
    op = src.choice(["slice", "slice_v2"])
    s = sh(src, 1, 5, 7, 600)
    x = arr(src, s)
    b = [src.int(0, n - 1) for n in s]
    z = [src.int(1, n - i) if src.bool(0.8) else -1 for n, i in zip(s, b)]
    w = x[tuple(slice(i, None if k < 0 else i + k) for i, k in zip(b, z))]
    idt = src.choice([np.int32, np.int64])
    what = f"{op}({ops.ndesc(x)}, begin={b}, size={z})"
    if op == "slice":
        out = ops.run_op(src, env, op, [x], {"begin": np.asarray(b, idt), "size": np.asarray(z, idt)})
    else:
        out = ops.run_op(src, env, op, [x, np.asarray(b, idt), np.asarray(z, idt)], {}, (1, 2))
    ops.check(out, w, 0, 0, what)
    return fin(what, src, w.size, [op])


def bound(src, n):
    return src.weighted([(6, None), (1, "far")]) and src.choice([-1000, 1000, n, n + 1, -n, -n - 1, -n - 2]) or src.int(-n - 2, n + 2)


def t_slice_v3(src, env):
    s = sh(src, 1, 5, 7, 600)
    x = arr(src, s)
    nd = x.ndim
    idt = src.choice([np.int32, np.int64])
    lim = np.iinfo(idt)
    axes = sorted(src.subset(range(nd))) or [src.raw(nd)]
    give = src.weighted([(2, 0), (3, 1), (4, 2)])
    if give == 0:
        axes = list(range(src.int(1, nd)))
    st, en, sp = [], [], []
    idx = [slice(None)] * nd
    for a in axes:
        n = s[a]
        step = 1
        if give == 2:
            step = src.choice([1, 1, 2, 3, -1, -1, -2, -3, 7, -7])
        i, j = bound(src, n), bound(src, n)
        if src.bool(0.1):
            j = int(lim.max) if step > 0 else -n - 1
        if src.bool(0.1):
            i = 0 if step > 0 else int(lim.max)
        if j == -n - 1 and step < 0 and src.bool(0.3):
            j = int(lim.min) + 1
        st.append(i), en.append(j), sp.append(step)
        idx[a] = slice(i, j, step)
    w = x[tuple(idx)]
    ins = [x, np.asarray(st, idt), np.asarray(en, idt)]
    pa = [a - nd if src.bool(0.25) else a for a in axes]
    if give >= 1:
        ins.append(np.asarray(pa, idt))
    if give >= 2:
        ins.append(np.asarray(sp, idt))
    what = f"slice_v3({ops.ndesc(x)}, starts={st}, ends={en}, axes={pa if give else None}, steps={sp})"
    ops.check(ops.run_op(src, env, "slice_v3", ins, {}, range(1, len(ins))), w, 0, 0, what)
    return fin(what, src, x.size // 2, ["slice_v3"])


def t_strided(src, env):
    s = sh(src, 1, 4, 7, 600)
    x = arr(src, s)
    nd = x.ndim
    use = src.int(1, nd) if src.bool(0.5) else nd
    ell = src.bool(0.3)
    cut = src.int(0, use) if ell else None
    spec, idx = [], []
    left = []
    k = 0
    masks = dict.fromkeys(["begin_mask", "end_mask", "ellipsis_mask", "new_axis_mask", "shrink_axis_mask"], 0)

    def add(b, e, st, **m):
        for q in m:
            if m[q]:
                masks[q] |= 1 << len(spec)
        spec.append((b, e, st))

    newax = src.bool(0.25)
    rank = nd
    for i in range(use + 1):
        if newax and rank < 7 and len(spec) + (use - i) + ell < 6 and src.bool(0.3):
            if src.bool(0.5):
                add(src.int(-2, 2), src.int(-2, 2), src.choice([1, 1, 2]), new_axis_mask=1)
            else:
                add(0, 1, 1, new_axis_mask=1)
            idx.append(np.newaxis)
            rank += 1
        if ell and i == cut:
            add(src.int(-2, 2), src.int(-2, 2), 1, ellipsis_mask=1)
            idx.append(Ellipsis)
        if i == use:
            break
        a = i if not ell or i < cut else nd - (use - i)
        n = s[a]
        if src.bool(0.2):
            b = src.int(-n, n - 1)
            e = src.choice([b + 1, b + 1, 0, b + 3])
            add(b, e, 1, shrink_axis_mask=1)
            idx.append(b)
        else:
            st = src.choice([1, 1, 1, 2, 3, -1, -2])
            b, e = bound(src, n), bound(src, n)
            bm, em = src.bool(0.25), src.bool(0.25)
            add(b, e, st, begin_mask=bm, end_mask=em)
            idx.append(slice(None if bm else b, None if em else e, st))
    w = x[tuple(idx)]
    P = {"begin": I32([q[0] for q in spec]), "end": I32([q[1] for q in spec])}
    if any(q[2] != 1 for q in spec) or src.bool():
        P["stride"] = I32([q[2] for q in spec])
    for m, v in masks.items():
        if v or src.bool(0.3):
            P[m] = np.int32(v)
    what = f"strided_slice({ops.ndesc(x)}, {[(k, v.tolist()) for k, v in P.items()]}) = x{idx}"
    ops.check(ops.run_op(src, env, "strided_slice", [x], P), w, 0, 0, what)
    lab = [m for m, v in masks.items() if v]
    return fin(what, src, x.size // 2, ["strided_slice"] + lab)


def t_gather(src, env):
    op = src.choice(["gather", "gatherv2", "gather_elements"])
    idt = src.choice([np.int32, np.int64])
    if op == "gather":
        s = sh(src, 1, 5, 7, 600)
        x = arr(src, s)
        nd = x.ndim
        a = src.raw(nd)
        ish = src.shape(src.int(0, min(3, 8 - nd)), hi=5, limit=24)
        lo = -s[a] if src.bool(0.5) else 0
        idx = np.asarray([src.int(lo, s[a] - 1) for _ in range(fmt.prod(ish))], idt).reshape(ish)
        P = {"axis": np.int32(a - nd if src.bool(0.4) else a)}
        if a == 0 and src.bool(0.5):
            P = {}
        w = np.take(x, idx, axis=a)
        warm = None
        cok = (1,)
        out = ops.run_op(src, env, op, [x, idx], P, cok)
    elif op == "gatherv2":
        s = sh(src, 1, 4, 6, 600)
        x = arr(src, s)
        nd = x.ndim
        k = src.int(1, nd)
        lead = src.shape(src.int(0, min(3, 7 - (nd - k))), hi=4, limit=20)
        idx = np.zeros(lead + (k,), idt)
        fl = idx.reshape(-1, k)
        for i in range(fl.shape[0]):
            for j in range(k):
                fl[i, j] = src.int(0, s[j] - 1)
        P = {}
        w = x[tuple(np.moveaxis(idx, -1, 0))]
        out = ops.run_op(src, env, op, [x, idx], P, (1,))
    else:
        s = sh(src, 1, 4, 6, 400)
        x = arr(src, s)
        nd = x.ndim
        a = src.raw(nd)
        k = src.int(1, 4)
        ish = tuple(k if i == a else n for i, n in enumerate(s))
        rng = src.nprng()
        lo = -s[a] if src.bool(0.5) else 0
        idx = rng.integers(lo, s[a], ish).astype(idt)
        P = {"axis": np.int32(a - nd if src.bool(0.4) else a)}
        w = np.take_along_axis(x, np.where(idx < 0, idx + s[a], idx), a)
        out = ops.run_op(src, env, op, [x, idx], P, (1,))
    what = f"{op}({ops.ndesc(x)}, idx {ops.ndesc(idx)} {idx.ravel()[:12].tolist()}, {P})"
    ops.check(out, w, 0, 0, what)
    return fin(what, src, w.size, [op])


def t_gather_rerun(src, env):
    """a constant (or re-used) index tensor serves runs over inputs of different length"""
    op = src.choice(["gather", "gather_elements"])
    nd = src.int(1, 3)
    a = src.raw(nd)
    tail = [src.int(1, 4) for _ in range(nd)]
    k = src.int(1, 4)
    n0 = src.int(1, 6)
    if op == "gather":
        idx = I32([src.int(-n0, n0 - 1) for _ in range(k)])
    else:
        ish = tuple(k if i == a else n for i, n in enumerate(tail))
        idx = src.nprng().integers(-n0, n0, ish).astype(np.int32)
    P = {"axis": np.int32(a - nd if src.bool(0.4) else a)}
    dt = src.choice(ALL)
    const = src.bool(0.5)
    runs = []
    with env.session(op, 2, P, {1: idx} if const else {}) as s_:
        hidx = None if const else env.t.new(idx)
        try:
            for _ in range(src.int(2, 3)):
                n = src.int(n0, n0 + 4)
                x = arr(src, tuple(n if i == a else t for i, t in enumerate(tail)), dt)
                if const:
                    out = s_(x)
                else:
                    env.t.set_input(s_.wb, 0, x)
                    env.t.set_input(s_.wb, 1, hidx)
                    env.t.run(s_.wb)
                    out = env.t.output(s_.wb, 0)
                w = np.take(x, idx, a) if op == "gather" else np.take_along_axis(x, np.where(idx < 0, idx + n, idx), a)
                ops.check(out, w, 0, 0, f"{op}({ops.ndesc(x)}, {'constant' if const else 're-used'} idx {idx.tolist()}, {P}) run {len(runs)}")
                runs.append(n)
        finally:
            if hidx:
                env.t.free_Tensor(hidx)
    return fin(f"rerun {op} {idx.tolist()} {runs} {tail} {P} {const}", src, 2, ["rerun"])


def t_scatter(src, env):
    s = sh(src, 1, 4, 6, 400)
    x = arr(src, s)
    k = src.int(1, x.ndim)
    space = fmt.prod(s[:k])
    n = src.int(1, min(space, 8))
    flat = src.nprng().permutation(space)[:n]
    idx = np.stack(np.unravel_index(flat, s[:k]), -1).astype(np.int32)
    if n % 2 == 0 and src.bool(0.3):
        idx = idx.reshape(2, n // 2, k)
    up = arr(src, idx.shape[:-1] + tuple(s[k:]), x.dtype.type)
    w = x.copy()
    w[tuple(np.moveaxis(idx, -1, 0))] = up
    what = f"scatter_nd({ops.ndesc(x)}, idx {idx.tolist()}, {ops.ndesc(up)})"
    ops.check(ops.run_op(src, env, "scatter_nd", [x, idx, up], {}, (1,)), w, 0, 0, what)
    return fin(what, src, w.size, ["scatter_nd", f"depth{k}"])


def t_topk(src, env):
    s = sh(src, 1, 4, 12, 800)
    x = arr(src, s)
    if src.bool(0.3):
        x = (x.astype(np.int64) % 5).astype(x.dtype)
    n = s[-1]
    k = src.int(1, n + (2 if src.bool(0.2) else 0))
    P = {"number": np.int32(k)}
    if src.bool():
        P["sorted"] = np.int32(src.int(0, 1))
    out = ops.run_op(src, env, "topkv2", [x], P)
    k = min(k, n)
    what = f"topkv2({ops.ndesc(x)}, {P})"
    if len(out) != 2:
        raise Violation(f"{what}: {len(out)} fields")
    w = -np.sort(-x.astype(np.float64), axis=-1)[..., :k] if x.dtype.kind == "f" else np.flip(np.sort(x, axis=-1), -1)[..., :k]
    ops.check(out[0], w.astype(x.dtype), 0, 0, what + " values")
    i = out[1]
    if i.dtype != fmt.INT32 or i.shape != w.shape:
        raise Violation(f"{what}: indices {i}")
    i = i.np()
    if i.min() < 0 or i.max() >= n:
        raise Violation(f"{what}: index out of range")
    ops.compare(np.take_along_axis(x, i, -1), w.astype(x.dtype), 0, 0, what + " value at index")
    si = np.sort(i, -1)
    if (si[..., 1:] == si[..., :-1]).any():
        raise Violation(f"{what}: an index is returned twice")
    return fin(what, src, x.size, ["topkv2"])


def t_nms(src, env):
    n = src.int(1, 12)
    r = src.nprng()
    mode = src.choice(["xyxy", "xywh"])
    grid = src.bool(0.5)
    c = r.uniform(0, 10, (n, 4)).astype(np.float32)
    if grid:
        c = np.round(c).astype(np.float32)
    b = c.copy()
    if mode == "xywh":
        b[:, 2:] = c[:, :2] + c[:, 2:]
    lo, hi = np.minimum(b[:, :2], b[:, 2:]), np.maximum(b[:, :2], b[:, 2:])
    sc = r.permutation(n).astype(np.float32) / n
    thr, st, k = src.choice([0.1, 0.3, 0.5, 0.7, 0.0, 1.0]), src.choice([0.0, 0.2, 0.5, -1.0]), src.int(1, n + 1)
    area = np.prod((hi - lo).astype(np.float64), axis=1)
    sel = []
    for i in np.argsort(-sc):
        if not sc[i] > np.float32(st) or len(sel) >= k:
            break
        ok = True
        for j in sel:
            if area[i] <= 0 or area[j] <= 0:
                continue
            wh = np.maximum(np.minimum(hi[i], hi[j]) - np.maximum(lo[i], lo[j]), 0).astype(np.float64)
            inter = wh[0] * wh[1]
            iou = inter / (area[i] + area[j] - inter)
            if abs(iou - np.float32(thr)) < 1e-5:
                raise Discard()
            if iou > np.float32(thr):
                ok = False
                break
        if ok:
            sel.append(int(i))
    w = np.full(k, -1, np.int32)
    w[:len(sel)] = sel
    P = {"max_output_size": np.int32(k), "iou_threshold": np.float32(thr), "score_threshold": np.float32(st), "mode": mode}
    what = f"non_max_suppression_v3({c.tolist()}, {sc.tolist()}, {P})"
    ops.check(ops.run_op(src, env, "non_max_suppression_v3", [c, sc], P), w, 0, 0, what)
    return fin(what, src, n, ["nms"])


def t_refuse(src, env):
    """selections that do not exist: an error, never a result"""
    op = src.choice(["slice", "slice_v2", "slice_v3", "strided_slice", "gather", "gatherv2", "gather_elements", "scatter_nd", "topkv2",
                     "non_max_suppression_v3"])
    s = list(sh(src, 1, 4, 6, 400))
    nd = len(s)
    x = arr(src, tuple(s))
    idt = src.choice([np.int32, np.int64])
    P, cok = {}, ()
    off = lambda: src.choice([1, 1, 2, 7, 1000, 2 ** 20])
    d = src.raw(nd)
    if op in ("slice", "slice_v2"):
        b = [src.int(0, n - 1) for n in s]
        z = [src.int(1, n - i) for n, i in zip(s, b)]
        k = src.choice(["begin", "negative begin", "size", "count"])
        if k == "begin":
            b[d] = s[d] + off() - 1
            z[d] = src.choice([1, -1])
        elif k == "negative begin":
            b[d] = -off()
        elif k == "size":
            z[d] = s[d] - b[d] + off()
        elif src.bool():
            b.pop()
        else:
            z.append(1)
        if op == "slice":
            ins, P = [x], {"begin": np.asarray(b, idt), "size": np.asarray(z, idt)}
        else:
            ins, cok = [x, np.asarray(b, idt), np.asarray(z, idt)], (1, 2)
        k += f" begin={b} size={z}"
    elif op == "slice_v3":
        k = src.choice(["step 0", "axis", "axis twice", "count"])
        st, en, ax, sp = [0], [s[d]], [d], [1]
        if k == "step 0":
            sp = [0]
        elif k == "axis":
            ax = [nd + off() - 1 if src.bool() else -nd - off()]
        elif k == "axis twice":
            st, en, ax, sp = st * 2, en * 2, [d, d - nd if src.bool() else d], sp * 2
        else:
            j = src.int(1, 3)
            (st, en, ax, sp)[j].append(1)
        ins = [x] + [np.asarray(v, idt) for v in (st, en, ax, sp)]
        cok = range(1, 5)
        k += f" {st} {en} {ax} {sp}"
    elif op == "strided_slice":
        k = src.choice(["step 0", "shrink", "count", "rank"])
        b, e, st = [0] * nd, list(s), [1] * nd
        if k == "step 0":
            st[d] = 0
        elif k == "shrink":
            b[d] = s[d] + off() - 1 if src.bool() else -s[d] - off()
            P["shrink_axis_mask"] = np.int32(1 << d)
        elif k == "count":
            (b, e, st)[src.raw(3)].append(1)
        else:
            b, e, st = b + [0], e + [1], st + [1]
        P.update(begin=I32(b), end=I32(e), stride=I32(st))
        ins = [x]
        k += f" {b} {e} {st}"
    elif op in ("gather", "gather_elements"):
        k = src.choice(["axis", "index", "negative index"] + ["sizes"] * (op == "gather_elements"))
        if op == "gather":
            ish = list(src.shape(src.int(0, 3), hi=4, limit=20))
        else:
            ish = list(s)
            ish[d] = src.int(1, 4)
        idx = src.nprng().integers(-s[d], s[d], ish).astype(idt) if fmt.prod(ish) else None
        idx = np.asarray(idx, idt).reshape(ish)
        if k == "axis":
            d = nd + off() - 1 if src.bool() else -nd - off()
        elif k == "sizes":
            if nd < 2 or src.bool(0.3):
                ish = ish + [1]
            else:
                i = (d + src.int(1, nd - 1)) % nd
                ish[i] += src.int(1, 3)
            idx = np.zeros(ish, idt)
        else:
            p = src.raw(idx.size)
            idx.reshape(-1)[p] = s[d] + off() - 1 if k == "index" else -s[d] - off()
        P["axis"] = np.int32(d)
        ins, cok = [x, idx], (1,)
        k += f" {ish} {d}"
    elif op in ("gatherv2", "scatter_nd"):
        k = src.choice(["index", "negative index", "depth"] + ["updates"] * (op == "scatter_nd"))
        n = src.int(1, nd)
        m = src.int(1, 4)
        idx = np.zeros((m, n), np.int32)
        for i in range(m):
            for j in range(n):
                idx[i, j] = src.int(0, s[j] - 1)
        if k == "depth":
            n = nd + 1
            idx = np.zeros((m, n), np.int32)
        elif k != "updates":
            j = src.raw(n)
            idx[src.raw(m), j] = s[j] + off() - 1 if k == "index" else -off()
        ins, cok = [x, idx], (1,)
        k += f" {idx.tolist()}"
        if op == "scatter_nd":
            us = [m] + s[n:]
            if k.startswith("updates"):
                i = src.raw(len(us))
                us[i] += src.int(1, 3)
            ins.append(arr(src, tuple(us), x.dtype.type))
            k += f" {us}"
    elif op == "topkv2":
        k = "number"
        P["number"] = np.int32(src.choice([-1, -2, -5, -1000]))
        ins = [x]
        k += f" {P['number']}"
    else:
        n = src.int(1, 6)
        k = src.choice(["boxes", "scores", "count", "rank"])
        bs, ss = [n, 4], [n]
        if k == "boxes":
            bs[1] = src.choice([1, 2, 3, 5])
        elif k == "scores":
            ss[0] += src.choice([-1, 1, 3]) if n > 1 else 1
        elif k == "rank":
            if src.bool():
                bs = [1] + bs
            else:
                ss = ss + [1]
        P = {"max_output_size": np.int32(0 if k == "count" else n), "iou_threshold": np.float32(0.5), "score_threshold": np.float32(0), "mode": "xyxy"}
        ins = [np.zeros(bs, np.float32), np.zeros(ss, np.float32)]
        k += f" {bs} {ss}"
    what = f"{op} {k} on {[(i.dtype.name, i.shape) for i in ins]}, {[(a, b.tolist() if hasattr(b, 'tolist') else b) for a, b in P.items()]}"
    try:
        got = ops.run_op(src, env, op, ins, P, cok)
    except ApiError:
        return {"desc": what, "nt": True, "labels": [op, "refused"]}
    raise Violation(f"{what}: a result {[(list(f.shape)) for f in got]} instead of an error", sig=f"refuse {op} {k.split()[0]}")


TARGETS = {"slice": t_slice, "slice_v3": t_slice_v3, "strided": t_strided, "gather": t_gather, "gather_rerun": t_gather_rerun,
           "scatter": t_scatter, "topk": t_topk, "nms": t_nms, "refuse": t_refuse}
WEIGHTS = {"slice": 2, "slice_v3": 4, "strided": 6, "gather": 4, "gather_rerun": 2, "scatter": 2, "topk": 2, "nms": 2, "refuse": 2}
