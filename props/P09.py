"""Elementwise binary operators against numpy broadcasting."""
import numpy as np
from tv import fmt, ops
from tv.gen import Violation, Discard

ID = "P09"
RULE = ("one binary/select operator applied to generated operands (rank 0-5, numpy-style broadcast of up to 5 dims, "
        "10 numeric types, mixed types, 1-3 consecutive runs with other shapes on the same workbench); "
        "non-trivial = output has at least 2 elements; distinct by operator, types, shapes and data seed")
CASES = {"quick": 80000, "thorough": 1500000}


def setup(libs):
    return ops.Env(libs)


INTS = [np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64, np.uint64]
FLOATS = [np.float32, np.float64]


def bshapes(src, n=2, maxrank=5):
    """n shapes broadcastable together, and the result"""
    nd = src.weighted([(2, 1), (4, 2), (4, 3), (3, 4), (1, 5), (1, 0)])
    out = src.shape(nd, hi=9, limit=1500)
    res = []
    for k in range(n):
        mode = src.weighted([(4, "same"), (3, "mask"), (2, "scalar"), (3, "bias"), (2, "drop")])
        s = list(out)
        if mode == "mask":
            s = [1 if src.bool(0.4) else d for d in s]
        elif mode == "scalar":
            s = [1] * src.int(0, nd) if src.bool(0.7) else []
        elif mode == "bias" and nd:
            d = src.raw(nd)
            s = [s[i] if i == d else 1 for i in range(nd)]
            if src.bool(0.3):
                s = s[d:]
        elif mode == "drop":
            s = s[src.int(0, nd):]
            s = [1 if src.bool(0.2) else d for d in s]
        res.append(tuple(s))
    return res, np.broadcast_shapes(*res)


def data(src, shape, dt, nonzero=False, small=False):
    if np.dtype(dt).kind == "f":
        x = src.farray(shape, dt)
        if nonzero:
            x = np.where(np.abs(x) < 1e-3, dt(1.5), x).astype(dt)
    else:
        if small or src.bool(0.6):
            x = src.iarray(shape, dt, -20, 20)
        else:
            x = src.iarray(shape, dt)
        if nonzero:
            x = np.where(x == 0, dt(3), x).astype(dt)
            if np.dtype(dt).kind == "i":
                x = np.where(x == -1, dt(5), x).astype(dt)
    return x


def width(dt):
    return fmt.BYTES[dt]


def isf(dt):
    return dt in (fmt.FLOAT16, fmt.FLOAT32, fmt.FLOAT64)


SIGNED = {fmt.INT8, fmt.INT16, fmt.INT32, fmt.INT64}


def common_ok(r, a, b):
    """is r an acceptable common type of the types a and b"""
    if a == b:
        return r == a
    if isf(a) or isf(b):
        return isf(r) and width(r) >= max(width(x) for x in (a, b) if isf(x)) and \
            all(isf(x) or x == fmt.BOOLEAN or width(r) >= width(x) for x in (a, b))
    if r not in fmt.NP or isf(r) or width(r) < max(width(a), width(b)):
        return False
    if (a in SIGNED or b in SIGNED) and r not in SIGNED:
        return False
    return True


def arith(op, a, b):
    dt = a.dtype
    with np.errstate(all="ignore"):
        if op == "add":
            return a + b
        if op == "sub":
            return a - b
        if op == "mul":
            return a * b
        if op == "maximum":
            return np.maximum(a, b)
        if op == "mod":
            return np.fmod(a, b)
        if op == "div":
            lim = np.finfo(dt) if dt.kind == "f" else np.iinfo(dt)
            z = np.where(a > 0, dt.type(lim.max), dt.type(lim.min)).astype(dt)
            if dt.kind == "f":
                return np.where(b == 0, z, a / np.where(b == 0, dt.type(1), b)).astype(dt)
            bb = np.where(b == 0, dt.type(1), b)
            if dt.kind == "u":
                q = a // bb
            else:
                r = np.fmod(a, bb)
                q = (a - r) // bb
            return np.where(b == 0, z, q).astype(dt)
    raise AssertionError(op)


def t_binary(src, env):
    op = src.choice(["add", "sub", "mul", "div", "maximum", "mod"])
    pool = INTS if op == "mod" else FLOATS[:1] * 4 + FLOATS + INTS
    da = src.choice(pool)
    mixed = src.bool(0.25)
    db = src.choice(pool) if mixed else da
    consts = {}
    rounds = src.weighted([(5, 1), (2, 2), (1, 3)])
    which = src.raw(4)   # 2: rhs const, 3: lhs const
    cd = None
    th = src.choice([None, 1, 3])
    desc = []
    sess = None
    nt = False
    labels = [op, "mixed" if np.dtype(da) != np.dtype(db) else "same-type"]
    try:
        for r in range(rounds):
            (sa, sb), so = bshapes(src)
            if sess is not None and consts:
                # the constant keeps its shape
                k = next(iter(consts))
                fixed = consts[k].shape
                if k == 1:
                    sa, sb = (sa if src.bool() else fixed), fixed
                else:
                    sb, sa = (sb if src.bool() else fixed), fixed
                try:
                    so = np.broadcast_shapes(sa, sb)
                except ValueError:
                    sa = sb = fixed
                    so = fixed
            zero_div = op == "div" and src.bool(0.25)
            a = data(src, sa, da)
            b = data(src, sb, db, nonzero=op in ("div", "mod") and not zero_div)
            if op in ("div", "mod") and np.dtype(db).kind == "i":
                b = np.where(b == -1, np.dtype(db).type(5), b).astype(db)
            if sess is None:
                if which == 2:
                    consts = {1: b}
                elif which == 3:
                    consts = {0: a}
                sess = env.session(op, 2, {}, consts, threads=th)
            if 1 in consts:
                b = consts[1]
            if 0 in consts:
                a = consts[0]
            desc.append(f"{ops.ndesc(a)}{ops.ndesc(b)}")
            ta, tb = fmt.ID[a.dtype], fmt.ID[b.dtype]
            out = sess(*[x for i, x in enumerate((a, b)) if i not in consts])
            what = f"{op}({ops.ndesc(a)}, {ops.ndesc(b)})"
            if len(out) != 1:
                raise Violation(what + ": output is packed")
            rt = out[0].dtype
            if not common_ok(rt, ta, tb):
                raise Violation(f"{what}: result type {fmt.NAMES.get(rt, rt)}")
            rnp = np.dtype(fmt.NP[rt])
            with np.errstate(all="ignore"):
                ca, cb = a.astype(rnp), b.astype(rnp)
            if op in ("div", "mod") and rnp.kind == "i" and (cb == -1).any():
                # minimum / -1 has no representable result
                if (ca == np.iinfo(rnp).min).any():
                    raise Discard()
            if op == "mod" and (cb == 0).any():
                raise Discard()
            want = arith(op, ca, cb).astype(rnp)
            ops.check(out, want, 1e-6 if rnp.kind == "f" else 0, 0, what)
            nt = nt or want.size >= 2
            if a.shape != b.shape:
                labels.append("broadcast")
    finally:
        if sess is not None:
            sess.__exit__()
    if rounds > 1:
        labels.append("rerun")
    return {"desc": f"{op} {' ; '.join(desc)} #{src.rec[-1]}", "labels": labels, "nt": nt}


def t_equal(src, env):
    (sa, sb), so = bshapes(src)
    da = src.choice(FLOATS + INTS)
    db = da if src.bool(0.8) else src.choice(FLOATS + INTS)
    a = src.iarray(sa, np.int8, 0, 2).astype(da)
    b = src.iarray(sb, np.int8, 0, 2).astype(db)
    out = ops.run_op(src, env, "equal", [a, b], const_ok=(0, 1))
    ops.check(out, np.asarray(a.astype(np.float64) == b.astype(np.float64)), 0, 0, f"equal({ops.ndesc(a)}, {ops.ndesc(b)})")
    return {"desc": f"equal {ops.ndesc(a)} {ops.ndesc(b)} {a.ravel()[:4]} {b.ravel()[:4]}",
            "labels": ["broadcast"] if sa != sb else [], "nt": int(np.prod(so)) >= 2}


def t_where(src, env):
    (sc, sa, sb), so = bshapes(src, 3)
    d = src.choice(FLOATS + INTS)
    c = src.iarray(sc, np.uint8, 0, 1)
    cd = src.choice([np.uint8, np.int32, np.float32])
    c = c.astype(cd)
    a, b = data(src, sa, d), data(src, sb, d)
    out = ops.run_op(src, env, "where", [c, a, b], const_ok=(0, 1, 2))
    ops.check(out, np.where(c != 0, a, b), 0, 0, f"where({ops.ndesc(c)}, {ops.ndesc(a)}, {ops.ndesc(b)})")
    return {"desc": f"where {ops.ndesc(c)} {ops.ndesc(a)} {ops.ndesc(b)} #{src.rec[-1]}",
            "labels": ["broadcast"] if not (sc == sa == sb) else [], "nt": int(np.prod(so)) >= 2}


def t_reject(src, env):
    """shapes that do not broadcast are refused, and the workbench stays usable"""
    from tv.api import ApiError
    nd = src.int(1, 4)
    s = src.shape(nd, hi=6, limit=400)
    i = src.raw(nd)
    k = src.int(2, 6)
    sa = s[:i] + (k,) + s[i + 1:]
    sb = s[:i] + (k + src.int(1, 3),) + s[i + 1:]
    if src.bool(0.3):
        sb = sb[i:]
    op = src.choice(["add", "sub", "mul", "div", "maximum", "mod", "equal"])
    d = np.int32 if op == "mod" else np.float32
    a, b = np.ones(sa, d), np.ones(sb, d)
    with env.session(op, 2) as sess:
        try:
            out = sess(a, b)
        except ApiError:
            pass
        else:
            raise Violation(f"{op}({list(sa)}, {list(sb)}) accepted, output {out}")
        out = sess(a, a)
        want = {"add": 2, "sub": 0, "mul": 1, "div": 1, "maximum": 1, "mod": 0, "equal": 1}[op]
        w = np.full(sa, want, d) if op != "equal" else np.full(sa, True)
        ops.check(out, w, 0, 0, f"{op} after a refused run")
    return {"desc": f"reject {op} {sa} {sb}", "labels": [], "nt": True}


TARGETS = {"binary": t_binary, "equal": t_equal, "where": t_where, "reject": t_reject}
WEIGHTS = {"binary": 12, "equal": 2, "where": 2, "reject": 1}
