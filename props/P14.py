"""Matrix multiplication operators against float64 numpy."""
import numpy as np
from tv import fmt, ops
from tv.gen import Violation, Discard

ID = "P14"
RULE = ("gemm / inner_prod / matmul on generated matrices (sizes around the 4/8-wide blocking, degenerate sizes 1), every "
        "transpose flag, alpha/beta, C broadcast, operands as run-time inputs or model constants, compiled with packing on or "
        "off, 1-4 threads, 1-3 runs; matrices that do not fit have to be refused; non-trivial = at least 2 output elements; distinct by operator, parameters, shapes, seed")
CASES = {"quick": {"rel": 40000, "asan": 8000}, "thorough": {"rel": 600000, "asan": 150000}}
VARIANTS = ("rel", "asan")


def setup(libs):
    return ops.Env(libs)


def dim(src, big=40):
    return src.weighted([(4, None), (3, 0), (1, 1)]) and src.int(20, big) or src.weighted([(3, 0), (2, 1)]) and src.choice([1, 4, 8, 9, 16, 17, 7]) or src.int(1, 12)


def mat(src, s, dt):
    x = src.farray(s, dt)
    return np.clip(x, -100, 100).astype(dt)


OPTS = [None, "", "--no-pack", "--pack", "--pack --winograd"]


def run(src, env, op, xs, P, opts, cok, what, wfn, rerun=True):
    consts = {i: xs[i] for i in cok if src.bool(0.5)}
    th = src.choice([None, 1, 2, 4])
    runs = src.weighted([(5, 1), (2, 2)]) if rerun else 1
    what += f" consts={sorted(consts)} options={opts!r} threads={th}"
    with env.session(op, len(xs), P, consts, opts, th) as s:
        for r in range(runs):
            if r:
                xs = [x if i in consts else mat(src, x.shape, x.dtype.type) for i, x in enumerate(xs)]
            out = s(*[x for i, x in enumerate(xs) if i not in consts])
            w, scale = wfn(xs)
            dt = xs[0].dtype
            ops.check(out, w.astype(dt), 1e-5 if dt == np.float32 else 1e-12, 1e-30, what + f" run {r}", scale=scale)
    return w, sorted(consts)


def t_gemm(src, env):
    dt = src.choice([np.float32, np.float32, np.float64])
    M, K, N = dim(src), dim(src), dim(src)
    tA, tB = src.bool(0.4), src.bool(0.4)
    A = mat(src, (K, M) if tA else (M, K), dt)
    B = mat(src, (N, K) if tB else (K, N), dt)
    C = mat(src, src.choice([(M, N), (1, N), (N,), (M, 1), (1, 1), (), (1,)]), dt)
    al, be = src.choice([1, 1, 0.5, 2, -1.5, 0]), src.choice([1, 1, 0, 0.5, -2])
    P = {}
    if al != 1 or src.bool():
        P["alpha"] = np.float32(al)
    if be != 1 or src.bool():
        P["beta"] = np.float32(be)
    if tA or src.bool():
        P["transA"] = np.int32(tA) if src.bool() else bool(tA)
    if tB or src.bool():
        P["transB"] = np.int32(tB) if src.bool() else bool(tB)

    def ref(xs):
        a, b, c = (x.astype(np.float64) for x in xs)
        a, b = a.T if tA else a, b.T if tB else b
        w = al * (a @ b) + be * np.broadcast_to(c, (M, N))
        return w, abs(al) * (np.abs(a) @ np.abs(b)) + abs(be) * np.abs(c) + 1e-20

    what = f"gemm({ops.ndesc(A)}, {ops.ndesc(B)}, {ops.ndesc(C)}, {P})"
    w, c = run(src, env, "gemm", [A, B, C], P, src.choice(OPTS), (0, 1, 2), what, ref)
    return {"desc": f"{what} {c} #{src.rec[-4:]}", "nt": w.size >= 2, "labels": ["gemm", np.dtype(dt).name] + [f"const{i}" for i in c]}


def t_inner(src, env):
    dt = src.choice([np.float32, np.float32, np.float64])
    M, N = dim(src), dim(src)
    if src.bool(0.7):
        K = dim(src)
        xs_ = (M, K)
    else:
        xs_ = (M,) + src.shape(src.int(0, 3), hi=6, limit=60)
        K = fmt.prod(xs_[1:])
    t = src.bool(0.4)
    P = {"transpose": bool(t)} if t or src.bool() else {}
    x, a = mat(src, xs_, dt), mat(src, (N, K) if t else (K, N), dt)

    def ref(xs):
        p, q = xs[0].astype(np.float64).reshape(M, K), xs[1].astype(np.float64)
        q = q.T if t else q
        return p @ q, np.abs(p) @ np.abs(q) + 1e-20
    what = f"inner_prod({ops.ndesc(x)}, {ops.ndesc(a)}, {P})"
    w, c = run(src, env, "inner_prod", [x, a], P, src.choice(OPTS), (1, 0) if src.bool(0.2) else (1,), what, ref)
    return {"desc": f"{what} {c} #{src.rec[-4:]}", "nt": w.size >= 2, "labels": ["inner_prod", np.dtype(dt).name] + [f"const{i}" for i in c]}


def t_matmul(src, env):
    dt = src.choice([np.float32, np.float32, np.float64])
    M, K, N = dim(src, 30), dim(src, 30), dim(src, 30)
    k = src.choice(["22", "22", "44", "n2"])
    if k == "22":
        sa, sb = (M, K), (K, N)
    elif k == "44":
        sa, sb = (1, 1, M, K), (1, 1, K, N)
    else:
        lead = src.shape(src.int(2, 4), hi=4, limit=30)
        sa, sb = lead + (K,), (K, N)
    a, b = mat(src, sa, dt), mat(src, sb, dt)

    def ref(xs):
        p, q = (x.astype(np.float64) for x in xs)
        return p @ q, np.abs(p) @ np.abs(q) + 1e-20
    what = f"matmul({ops.ndesc(a)}, {ops.ndesc(b)})"
    w, c = run(src, env, "matmul", [a, b], {}, src.choice(OPTS), (0, 1), what, ref)
    return {"desc": f"{what} {c} #{src.rec[-4:]}", "nt": w.size >= 2, "labels": ["matmul"] + [f"const{i}" for i in c]}


def t_refuse(src, env):
    """matrices that do not fit: an error, never a result"""
    op = src.choice(["gemm", "inner_prod", "matmul"])
    dt = src.choice([np.float32, np.float32, np.float64])
    M, K, N = (src.int(1, 9) for _ in range(3))
    K2 = K + src.choice([1, 2, 5, -1])
    if K2 < 1:
        K2 = K + 1
    f = lambda s, t=dt: np.ones(s, t)
    P = {}
    if op == "gemm":
        k = src.choice(["inner", "rank B", "type"])
        tA, tB = src.bool(0.4), src.bool(0.4)
        P = {"transA": np.int32(tA), "transB": np.int32(tB)}
        if k == "inner":
            A, B, C = f((M, K)), f((K2, N)), f((M, N))
        else:
            A, B, C = f((M, K)), f((K, N)), f((M, N))
        A, B = A.T.copy() if tA else A, B.T.copy() if tB else B
        if k == "rank B":
            B = f((1,) + B.shape) if src.bool() else f((K,))
        elif k == "type":
            o = np.float64 if dt == np.float32 else np.float32
            j = src.raw(2)
            A, B, C = (x.astype(o) if i == j else x for i, x in enumerate((A, B, C)))
        xs, cok = [A, B, C], (0, 1, 2)
    elif op == "inner_prod":
        k = src.choice(["inner", "rank", "type"])
        t = src.bool(0.4)
        P = {"transpose": bool(t)}
        A, B = f((M, K)), f((N, K2 if k == "inner" else K) if t else (K2 if k == "inner" else K, N))
        if k == "rank":
            B = f(B.shape + (2,)) if src.bool() else f((K,))
        elif k == "type":
            B = B.astype(np.float64 if dt == np.float32 else np.float32)
        xs, cok = [A, B], (1,)
    else:
        k = src.choice(["inner", "inner4", "rank", "batch", "type"])
        A, B = f((M, K)), f((K, N))
        if k == "inner":
            B = f((K2, N))
        elif k == "inner4":
            A, B = f((1, 1, M, K)), f((1, 1, K2, N))
        elif k == "rank":
            B = f((1, K, N)) if src.bool() else f((K,))
        elif k == "batch":
            A, B = f((2, 1, M, K)), f((2, 1, K, N))
        else:
            B = B.astype(np.float64 if dt == np.float32 else np.float32)
        xs, cok = [A, B], (0, 1)
    return ops.must_refuse(src, env, op, xs, P, k, cok)


TARGETS = {"gemm": t_gemm, "inner": t_inner, "matmul": t_matmul, "refuse": t_refuse}
WEIGHTS = {"gemm": 4, "inner": 3, "matmul": 2, "refuse": 1}
