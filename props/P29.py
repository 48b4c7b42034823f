"""The C++ classes are faithful faces of the C API."""
import ctypes as C
import types
import numpy as np
from tv import fmt, ops, api, cxx, shim
from tv.gen import Violation, Discard
from tv.api import ApiError
from props import P06, P16, P19, P23, P27

ID = "P29"
RULE = ("the generators and models of the checks of workbench histories (P06), image filters (P19), tensor handles (P23) and module fusion (P27), driven through "
        "ts::api::Workbench, Program, Module, ImageFilter and Tensor with a random choice among the overloads of every call; tensors built and read by the helpers of "
        "ts::api::tensor from values of every type; an operator written against ts::api::Operator with parameters, several outputs and refusals; chains of 2-D "
        "transformations in float and double; non-trivial as in those checks, at least 2 elements or 2 steps; distinct by the whole case")
CASES = {"quick": 8000, "thorough": 400000}
SHIMS = ("cpp", "mod")
VARIANTS = ("rel", "asan")


def setup(libs):
    env = types.SimpleNamespace(libs=libs)
    t = env.t = cxx.Cx(libs["lib"], libs["cpp"])
    env.mod = shim.Mod(libs["mod"])
    env.session = ops.Env.session.__get__(env)
    x = fmt.param("x")
    t.mode(1)
    env.wb = t.bench(t.module(fmt.enc_module([x], [fmt.Node("abs", [x], "y")])))
    t.Workbench_setup_context(env.wb)
    t.cx.cx_register()
    env.gfx = {np.float64: t.cx.cx_gfx_d, np.float32: t.cx.cx_gfx_f}
    for f in env.gfx.values():
        f.argtypes = [C.c_int, api.P, api.P, api.P]
    return env


def via(f):
    def target(src, env):
        env.t.mode(src.raw(1 << 16))
        if f is P19.t_pipe and not env.t.Workbench_setup_context(env.wb):
            raise ApiError("context")
        try:
            return f(src, env)
        except ApiError as e:
            if not str(e).split(": ", 1)[-1] or "\1" in str(e):
                raise Violation(f"an exception without a message: {e}")
            raise
    return target


TY = P16.ALL
NAMES = {0: "void", 1: "int8", 2: "uint8", 3: "int16", 4: "uint16", 5: "int32", 6: "uint32", 7: "int64", 8: "uint64", 10: "float32", 11: "float64", 13: "char8"}


def t_value(src, env):
    t = env.t
    t.mode(src.raw(1 << 16))
    a, b = src.choice(TY), src.choice(TY)
    how = src.int(0, 9)
    s = P16.sh(src, 0, 3, 6)
    n = {4: 1, 6: 1, 8: 3, 9: 2}.get(how, fmt.prod(s))
    if how == 9:
        s = src.choice([(2,), (1, 2), (2, 1)])
    x = (src.nprng().integers(0, 120, max(n, 1)).astype(a))[:n] if n else np.zeros(0, a)
    if n and how in (5, 6, 7):
        x = P16.arr(src, (n,), a)
    want = x.astype(b)
    shape = {4: (1,), 6: (1,), 0: (n,), 1: (n,), 5: (n,), 8: (3,)}.get(how, tuple(s))
    if how in (5, 6, 7):
        b, want = a, x
    what = f"build way {how} of {np.dtype(a).name}[{n}] as {np.dtype(b).name}{list(shape)}"
    bad = how == 7 and src.bool(0.3)
    dims = list(shape) + ([2] if bad else [])
    if bad and n == 0:
        raise Discard
    sa = (api.I32 * max(1, len(dims)))(*dims)
    buf = C.create_string_buffer(np.ascontiguousarray(x).tobytes(), max(1, x.nbytes))
    h = t.cx.cx_build(how, fmt.ID[np.dtype(b)], C.cast(sa, api.P), len(dims), fmt.ID[np.dtype(a)], C.cast(buf, api.P), n)
    if bad:
        if h or "mismatch" not in t.err():
            raise Violation(f"{what}: a shape of another size {dims} was accepted ({t.err()})")
        return {"desc": what, "nt": n >= 2, "labels": ["refused"]}
    if not h:
        raise Violation(f"{what} failed: {t.err()}")
    try:
        want = want.reshape(shape)
        ops.check(t.get(h), want, 0, 0, what)
        if t.cx.cx_Tensor_count(h) != want.size:
            raise Violation(f"{what}: count() is {t.cx.cx_Tensor_count(h)}")
        if want.size:
            for k, d in ((0, np.int32), (1, np.uint32), (2, np.float32), (3, np.float64)):
                with np.errstate(all="ignore"):
                    w = want.astype(d).ravel()
                    if np.dtype(d).kind != "f" and not np.array_equal(w.astype(np.float64), want.astype(np.float64).ravel()):
                        continue
                for one in (True, False):
                    m = t.cx.cx_to(h, k if one else k + 10)
                    got = C.string_at(t.cx.cx_buf(), m) if m > 0 else b""
                    z = w[:1] if one else w
                    if got != z.tobytes():
                        raise Violation(f"{what}: reading {'one value' if one else 'the values'} as {np.dtype(d).name} gives {np.frombuffer(got, d)[:5].tolist()} "
                                        f"of {z[:5].tolist()}")
    finally:
        t.free_Tensor(h)
    k = src.choice(list(NAMES))
    if t.cx.cx_type_str(k).decode() != NAMES[k] or t.cx.cx_type_bytes(k) != fmt.BYTES[k]:
        raise Violation(f"type {k} is called {t.cx.cx_type_str(k)} and {t.cx.cx_type_bytes(k)} bytes wide")
    s = bytes(src.int(1, 255) for _ in range(src.int(0, 12)))
    how = src.raw(2)
    h = t.cx.cx_from_str(s, len(s), how)
    try:
        g = t.get(h)[0]
        n = t.cx.cx_to(h, 4)
        if g.dtype != 13 or g.shape != (len(s),) or g.data != s or C.string_at(t.cx.cx_buf(), n) != s:
            raise Violation(f"the string {s!r} became {g!r}")
    finally:
        t.free_Tensor(h)
    return {"desc": what + f" #{src.rec[-3:]}", "nt": want.size >= 2, "labels": [f"way {how}"]}


def t_gfx(src, env):
    dt = src.choice([np.float64, np.float32])
    f = env.gfx[dt]
    tol = 1e-9 if dt == np.float64 else 2e-4
    q = lambda lo=-4, hi=4: src.int(lo * 8, hi * 8) / 8

    def call(k, a=None, b=(0, 0, 0), n=9):
        p = np.ascontiguousarray(a if a is not None else np.eye(3), dtype=dt)
        r = np.zeros(9, dt) if k == 0 else np.zeros(3, dt)
        r = np.ascontiguousarray(np.ravel(b), dtype=dt)
        o = np.zeros(9, dt)
        f(k, p.ctypes.data, r.ctypes.data, o.ctypes.data)
        return o[:n].reshape(3, 3).astype(np.float64) if n == 9 else o[:n].astype(np.float64)

    def near(g, w, what):
        if not np.allclose(g, w, rtol=tol, atol=tol * max(1, np.abs(w).max())):
            raise Violation(f"{what} is {np.asarray(g).tolist()}, expected {np.asarray(w).tolist()}")

    A, want, desc = np.eye(3), np.eye(3), []
    for _ in range(src.int(1, 6)):
        k = src.choice([5, 6, 7, 8, 9, 10, 11, 12, 13, 14])
        u, v = q(), q()
        if k == 5:
            u = src.choice([0, 90, 180, 270, -90, 45, 30, 360, src.int(-720, 720), src.int(-3600, 3600) / 7])
            r = u * np.pi / 180
            M = [[np.cos(r), -np.sin(r), 0], [np.sin(r), np.cos(r), 0], [0, 0, 1]]
        elif k in (8, 9):
            u, v = u or 1, v or 1
            M = np.diag([u, v if k == 8 else u, 1])
        else:
            M = {6: [[1, 0, u], [0, 1, v], [0, 0, 1]], 7: np.eye(3), 10: [[1, u, 0], [v, 1, 0], [0, 0, 1]], 11: [[1, u, 0], [0, 1, 0], [0, 0, 1]],
                 12: [[1, 0, 0], [u, 1, 0], [0, 0, 1]], 13: np.diag([-1 if u > 0 else 1, -1 if v > 0 else 1, 1]), 14: np.diag([-1, -1, 1])}[k]
        M = np.asarray(M, np.float64)
        B = call(k, b=(u, v, 0))
        near(B, M, f"transformation {k} of {u}, {v}")
        desc.append((k, u, v))
        st = src.bool()
        A = call(1, A, B) if st else call(0, B, A)
        want = M @ want
        near(A, want, f"after {desc} the product")
    p = [q(), q(), q()]
    near(call(2, want, p, 3), want @ p, f"point {p} by {want.tolist()}")
    near(call(3, want, p[:2] + [0], 2), (want @ [p[0], p[1], 1])[:2], f"point {p[:2]} by {want.tolist()}")
    w = want.astype(dt).astype(np.float64)
    w[2] = [0, 0, 1]
    det = np.linalg.det(w[:2, :2])
    if abs(det) > 0.01 and np.abs(w).max() < 100:
        near(call(4, w) @ w, np.eye(3) if True else 0, f"inverse of {w.tolist()} times it")
    return {"desc": f"{np.dtype(dt).name} {desc} {p}", "nt": len(desc) >= 2, "labels": [np.dtype(dt).name]}


def t_oper(src, env):
    """an operator class"""
    t = env.t
    t.mode(src.raw(1 << 16))
    n, k, outs = src.int(1, 3), src.int(-8, 8) / 4, src.int(1, 3)
    fail = src.weighted([(6, ""), (1, "init"), (1, "run"), (1, "none")])
    P = {}
    if k != 1 or src.bool():
        P["k"] = np.float32(k) if src.bool() else np.float64(k) if src.bool() else np.float32(k).reshape(1)
    if outs != 1 or src.bool():
        P["outs"] = src.choice([np.int32, np.int64, np.float32])(outs)
    if fail:
        P["fail"] = fail
    s = P16.sh(src, 0, 3, 6)
    ins = [fmt.param(f"x{i}") for i in range(n)]
    y = fmt.Node("tv_mix", ins, "mix", P)
    shown = [y] if outs == 1 else [fmt.Node("_field", [y], f"f{i}", {"offset": np.int32(i)}) for i in range(outs)]
    if src.bool(0.3):
        shown = [fmt.Node("abs", [v], f"a{i}") for i, v in enumerate(shown)]
    ab = shown[0].op == "abs" if hasattr(shown[0], "op") else False
    m = t.module(fmt.enc_module(ins, shown))
    what = f"tv_mix {P} of {n} x {list(s)}"
    wb = None
    try:
        try:
            wb = t.bench(m)
        except ApiError as e:
            if fail != "init" or "mix init refused" not in str(e):
                raise Violation(f"{what}: {e}")
            return {"desc": what, "nt": True, "labels": ["refused init"]}
        if fail == "init":
            raise Violation(f"{what}: built although init throws")
        for r in range(src.int(1, 2)):
            xs = [(src.nprng().integers(-50, 50, fmt.prod(s)) / 4).astype(np.float32).reshape(s) for _ in ins]
            for i, x in enumerate(xs):
                t.set_input(wb, i, x)
            try:
                t.run(wb)
            except ApiError as e:
                if fail == "run" and "mix run refused" in str(e) or fail == "none" and len(str(e)) > 20:
                    continue
                raise Violation(f"{what}: {e}")
            if fail:
                raise Violation(f"{what}: a result although run fails")
            for i in range(outs):
                w = (np.float32(k) * np.sum(xs, axis=0, dtype=np.float32) + np.float32(i)).astype(np.float32)
                ops.check(t.output(wb, i), np.abs(w) if ab else w, 1e-6, 1e-6, f"{what} output {i} run {r}")
    finally:
        if wb:
            t.free_Workbench(wb)
        t.free_Module(m)
    return {"desc": what + f" #{src.rec[-2:]}", "nt": fmt.prod(s) >= 2 or bool(fail), "labels": [f"outs {outs}"] + ([f"refused {fail}"] if fail else [])}


TARGETS = {"hist": via(P06.t_hist), "filter": via(P19.t_pipe), "handles": via(P23.t_handles), "fuse": via(P27.t_fuse),
           "value": t_value, "gfx": t_gfx, "oper": t_oper}
WEIGHTS = {"hist": 3, "filter": 3, "handles": 3, "fuse": 1, "value": 2, "gfx": 1, "oper": 2}
