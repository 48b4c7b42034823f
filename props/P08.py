"""Shape inference never contradicts execution."""
import ctypes as C
import importlib
import json
import numpy as np
from tv import fmt, ops, api, graphgen
from tv.gen import Violation, Discard
from tv.api import ApiError, P, I32

ID = "P08"
RULE = ("each operator over the inputs of its own check (P09-P18, P20-P22): prototypes asked of the operator itself and inferred from the graph, with inputs as parameters or constants and "
        "up to all sizes left open; random graphs of up to 14 operators inferred for two sets of inputs; non-trivial = at least one prototype with a known type was compared with what ran; "
        "distinct by the whole case")
CASES = {"quick": 12000, "thorough": 300000}
VARIANTS = ("rel", "asan")
SHIMS = ("infer",)
FAMILIES = ["P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18", "P20", "P21", "P22"]


def setup(libs):
    env = ops.Env(libs)
    d = env.inf = C.CDLL(libs["infer"])
    for k, r, a in (("inf_err", C.c_char_p, []), ("inf_buf", C.c_char_p, []), ("inf_param", I32, [P, I32, P, I32, I32]), ("inf_run", I32, [P, I32]), ("inf_value", P, [P, C.c_char_p]),
                    ("inf_offline", I32, [P, P, P, I32, I32, P])):
        f = getattr(d, k)
        f.restype, f.argtypes = r, a
    env.mods = {k: importlib.import_module("props." + k) for k in FAMILIES}
    env.bench0 = env.t.new_Workbench(env.t.cpup)
    return env


def name_of(fields):
    return " ".join(f"{fmt.NAMES.get(d, d)}{s}" for d, s in fields)


def fits(got, want):
    """got: fields as inferred, None or VOID type unknown, negative sizes open"""
    if not got or any(d == 0 for d, _ in got):
        return True
    return len(got) == len(want) and all(d == e and len(s) == len(z) and all(a < 0 or a == b for a, b in zip(s, z)) for (d, s), (e, z) in zip(got, want))


ROWS = {"proposal": 0, "yolo_poster": 0, "detection_output": 2}     # where and how many rows they give depends on the values


def rows_off(op, fields):
    k = ROWS.get(op, -1)
    return [(d, [-1 if i == k else n for i, n in enumerate(s)]) for d, s in fields]


def full(got):
    return bool(got) and all(d != 0 and all(a >= 0 for a in s) for d, s in got)


def fields_of(out):
    return [(x.dtype, list(x.shape)) for x in out]


def T_of(x):
    return [fmt.t(y) for y in x] if isinstance(x, (list, tuple)) else [fmt.t(x)]


def mark(env, m, i, t, sizes):
    a = (I32 * max(1, len(sizes)))(*sizes)
    if not env.inf.inf_param(m, i, C.cast(a, P), len(sizes), t):
        raise Violation(f"#shape cannot be set: {env.inf.inf_err()}")


def infer(env, m, way):
    """None when it failed"""
    env.t.Workbench_setup_context(env.bench0)       # other families leave the context of a workbench that is gone
    if not env.inf.inf_run(m, way):
        return None
    r = json.loads(env.inf.inf_buf())
    un = lambda h: bytes.fromhex(h).decode("latin1")
    r["nodes"] = {un(k): v for k, v in r["nodes"].items()}
    r["marks"] = {un(k): v for k, v in r["marks"].items()}
    r["values"] = [un(k) for k in r["values"]]
    return r


def value(env, m, name):
    h = env.inf.inf_value(m, name.encode("latin1"))
    if not h:
        return None
    try:
        return env.t.get(h)
    finally:
        env.t.free_Tensor(h)


def same(a, b):
    """equal but for the sign of zeros"""
    return a == b or (len(a) == len(b) and all(p.shape == q.shape and p.dtype == q.dtype and np.array_equal(p.np(), q.np()) for p, q in zip(a, b)))


def close(a, b):
    if a == b:
        return True
    if len(a) != len(b) or any(p.shape != q.shape or p.dtype != q.dtype for p, q in zip(a, b)):
        return False
    for p, q in zip(a, b):
        p, q = p.np().astype(float), q.np().astype(float)
        big = np.abs(q[np.isfinite(q)]).max(initial=0)
        if not np.allclose(p, q, rtol=1e-4, atol=1e-5 * max(1, big), equal_nan=True):
            return False
    return True


class Sess(ops.Session):
    def __init__(self, e, op, n, params, consts, options, threads):
        super().__init__(e.outer, op, n, params, consts, options, threads)
        self.e, self.params = e, params

    def __call__(self, *xs):
        e, env, t = self.e, self.e.outer, self.t
        try:
            out = super().__call__(*xs)
        except ApiError:
            out = None
        if out is not None or e.src.bool(0.5):
            it = iter(xs)
            full_in = [self.consts[i] if i in self.consts else next(it) for i in range(self.n)]
            self.offline(full_in, out)
            if out is not None:
                self.graph(full_in, out)
        if out is None:
            return super().__call__(*xs)
        return out

    def offline(self, xs, out):
        e, env, t = self.e, self.e.outer, self.t
        if any(y.dtype in (9, 21) for x in xs for y in T_of(x)):
            return
        m = t.module(api.op_module(self.op, self.n, self.params, {}))
        hs = []
        y = P()
        try:
            hs = [t.pack(x) if isinstance(x, (list, tuple)) else t.new(x) for x in xs]
            arr = (P * max(1, len(hs)))(*hs)
            how = e.src.int(0, 2) if out is not None else 1
            ok = env.inf.inf_offline(env.bench0 if e.src.bool() else self.wb, m, C.cast(arr, P), len(hs), how, C.byref(y))
            what = f"{self.op}({self.params}) on {[ops.ndesc(x) for x in xs]}"
            if not ok:
                if out is not None:
                    raise Violation(f"{what}: runs in a program, but not by itself ({'infer run both'.split()[how]}): {env.inf.inf_err().decode('latin1')[:300]}")
                return
            if out is None:
                if how:
                    raise Violation(f"{what}: fails in a program, but not by itself")
                return
            if how != 1:
                got = json.loads(env.inf.inf_buf())
                want = fields_of(out)
                got = [f for g in got for f in g]
                if rows_off(self.op, got) != rows_off(self.op, want):
                    raise Violation(f"{what}: the operator announces {name_of(got)} and gives {name_of(want)}")
                e.seen += 1
            if y:
                if not close(t.get(y), out):
                    raise Violation(f"{what}: run by itself it gives {t.get(y)!r}, in a program {out!r}"[:900])
        finally:
            if y:
                t.free_Tensor(y)
            for h in hs:
                t.free_Tensor(h)
            t.free_Module(m)

    def graph(self, xs, out):
        e, env, t, src = self.e, self.e.outer, self.t, self.e.src
        if any(isinstance(xs[i], (list, tuple)) for i in range(self.n)):
            return
        consts = {i: xs[i] for i in range(self.n) if i in self.consts or src.bool(0.5)}
        m = t.module(api.op_module(self.op, self.n, self.params, consts))
        try:
            k, opened = 0, False
            p = src.choice([0, 0, 0.3, 1])
            sizes = []
            for i in range(self.n):
                if i in consts:
                    continue
                x = fmt.t(xs[i])
                s = [-1 if p and src.bool(p) else int(d) for d in x.shape]
                opened |= -1 in s
                sizes.append(s)
                mark(env, m, k, x.dtype, s)
                k += 1
            r = infer(env, m, src.int(0, 3))
            what = f"{self.op}({self.params}) of {[ops.ndesc(x) + (' const' if i in consts else '') for i, x in enumerate(xs)]} with sizes {sizes}"
            if r is None:
                if not opened:
                    raise Violation(f"{what}: inference fails: {env.inf.inf_err().decode('latin1')[:300]}")
                return
            got, want = r["outputs"][0], fields_of(out)
            got = rows_off(self.op, got)
            if not fits(got, want):
                raise Violation(f"{what}: {name_of(got)} is inferred, {name_of(want)} comes out")
            if got and got[0][0]:
                e.seen += 1
            if "y" in r["values"]:
                v = value(env, m, "y")
                if not close(v, out):
                    raise Violation(f"{what}: the inferred value is {v!r}, a run gives {out!r}"[:900])
                e.seen += 1
            # with the sizes of the first input and everything else given, or just all of it, the shape is known
            if not opened and self.op not in NEVER and self.op not in VALUED and all(i in consts for i in range(1, self.n)) and not full(got):
                raise Violation(f"{what}: only {name_of(got) or 'nothing'} is inferred, all is known")
        finally:
            t.free_Module(m)


NEVER = {"ceil", "floor", "erf", "hard_sigmoid", "matmul", "mod", "pow", "prior_box", "scatter_nd", "split", "tile_v2", "crop_to", "gather_elements", "detection_output"}   # no method
VALUED = set(ROWS) | {"constant_of_shape", "range"}


def t_ops(src, env):
    fam = env.mods[src.choice(FAMILIES)]
    names = [k for k in fam.TARGETS if not (fam.ID == "P22" and k == "half")]
    w = getattr(fam, "WEIGHTS", {})
    name = src.weighted([(w.get(k, 1), k) for k in names])

    class E:
        pass
    e = E()
    e.__dict__.update({k: v for k, v in env.__dict__.items() if k != "session"})
    e.outer, e.src, e.seen = env, src, 0
    e.session = lambda op, n, params=None, consts=None, options=None, threads=None: Sess(e, op, n, params or {}, consts or {}, options, threads)
    info = fam.TARGETS[name](src, e)
    return {"desc": str(info.get("desc"))[:600], "nt": e.seen > 0, "labels": [fam.ID]}


def t_graph(src, env):
    t = env.t
    g = graphgen.gen(src, max_ops=src.choice([3, 6, 14]), heavy=src.bool(0.5), inexact=src.bool(0.5))
    xs = [v.val for v in g.inputs] if src.bool() else [graphgen.data(src, v.val.shape) for v in g.inputs]
    if any(isinstance(x, list) for x in xs):
        raise Discard()
    want = g.eval(xs)
    memo = g.memo
    m = t.module(g.encode())
    try:
        p = src.choice([0, 0, 0.3, 1])
        for i, x in enumerate(xs):
            mark(env, m, i, fmt.t(x).dtype, [-1 if p and src.bool(p) else int(d) for d in x.shape])
        what = f"{g.describe()} sizes {p}"
        seen = 0
        r = None
        for _ in range(src.int(1, 2)):
            r = infer(env, m, src.int(0, 3))
            if r is None:
                if p == 0:
                    raise Violation(f"{what}: inference fails: {env.inf.inf_err().decode('latin1')[:300]}")
                return {"desc": what, "nt": False, "labels": ["failed"]}
            fo = lambda y: fields_of([f for q in (y if isinstance(y, list) else [y]) for f in [fmt.t(q)]])
            for i, (y, got) in enumerate(zip(want, r["outputs"])):
                if not fits(got, fo(y)):
                    raise Violation(f"{what}: {name_of(got)} is inferred for output {i}, {name_of(fo(y))} comes out"[:1500])
                seen += bool(got and got[0][0])
            by = {v.node.name: memo[id(v)] for v in g.vs if id(v) in memo}
            exact = {v.node.name: v.exact for v in g.vs}
            for k, got in r["nodes"].items():
                if k in by and not fits(got, fo(by[k])):
                    raise Violation(f"{what}: {name_of(got)} is inferred for {k}, it is {name_of(fo(by[k]))}"[:1500])
            for k, (d, s) in r["marks"].items():
                if k in by and not fits([(d, s)], fo(by[k])[:1]):
                    raise Violation(f"{what}: {k} is marked as {name_of([(d, s)])}, it is {name_of(fo(by[k]))}"[:1500])
            for k in r["values"]:
                if k in by:
                    v = value(env, m, k)
                    y = [fmt.t(q) for q in (by[k] if isinstance(by[k], list) else [by[k]])]
                    if not (same(v, y) or not exact[k] and close(v, y)):
                        raise Violation(f"{what}: the inferred value of {k} is {v!r}, a run gives {y!r}"[:1500])
        return {"desc": what, "nt": seen > 0, "labels": ["known"] if seen else []}
    finally:
        t.free_Module(m)


TARGETS = {"ops": t_ops, "graph": t_graph}
WEIGHTS = {"ops": 5, "graph": 2}
