"""The C++ graph frontend builds and loads the program it describes."""
import ctypes as C
import numpy as np
from tv import fmt, ops, api, graphgen
from tv.gen import Violation, Discard
from tv.api import ApiError, P, I32
from props import P10, P14, P15, P16, P17, P18, P22, P31

ID = "P32"
RULE = ("one operator built by ts::symbol, ts::frontend or their forms taking plain arrays, inputs as parameters or data, or called by ts::intime, over the generators and definitions of the "
        "operator checks; random graphs of up to 12 operators built node by node with ts::bubble and the frontend, loaded by sinks, nodes or names, inputs sorted by names or nodes, "
        "parameters replaced, modules loaded twice, cleared, wrong names and nodes in between; non-trivial = at least 2 output elements compared; distinct by the whole case")
CASES = {"quick": 14000, "thorough": 500000}
VARIANTS = ("rel", "asan")
SHIMS = ("front",)


def setup(libs):
    env = ops.Env(libs)
    d = env.fe = C.CDLL(libs["front"])
    S = C.c_char_p
    for k, r, a in (("fe_err", S, []), ("fe_buf", S, []), ("fe_new", P, []), ("fe_free", None, [P]), ("fe_param", I32, [P, S, I32, P, I32]), ("fe_data", I32, [P, S, P, S]),
                    ("fe_op", I32, [P, S, S, P, I32, I32]), ("fe_set", I32, [P, I32, S, P]), ("fe_call", I32, [P, I32, S, S, P, P, I32, P, I32, P]),
                    ("fe_load", I32, [P, P, I32, P, P, I32]), ("fe_module", P, [P, I32, P, P, I32]), ("fe_sort", I32, [P, P, I32, P, P, I32]), ("fe_names", I32, [P, I32]),
                    ("fe_foreign", I32, [P, P, I32]), ("fe_set_param", I32, [P, S, S, P]), ("fe_clear", I32, [P]), ("fe_intime", P, [P, I32, S, P, I32, P, I32, P])):
        f = getattr(d, k)
        f.restype, f.argtypes = r, a
    return env


def ia(v):
    v = [int(x) for x in v]
    return (I32 * max(1, len(v)))(*v)


def fa(v):
    return (C.c_float * max(1, len(v)))(*[float(x) for x in v])


def pa(v):
    return (P * max(1, len(v)))(*v)


def sa(v):
    return (C.c_char_p * max(1, len(v)))(*[x.encode() for x in v])


def args(op, prm):
    """name of the function, integers and floats for an operator with these parameters; None when it cannot be said"""
    i = lambda k, d: int(prm.get(k, d))
    known = lambda *ks: all(k in ks for k in prm)
    if op in ("add", "sub", "mul", "div", "sigmoid", "broadcast") and known():
        return op, [], []
    if op == "_transpose" and known("permute") and "permute" in prm:
        return "transpose", list(prm["permute"]), []
    if op == "gather" and known("axis"):
        return op, [i("axis", 0)], []
    if op == "concat" and known("dim") and "dim" in prm:
        return op, [i("dim", 0)], []
    if op == "softmax" and known("dim", "smooth"):
        return op, [i("dim", 0), int(bool(prm.get("smooth", True)))], []
    if op == "_cast" and known("dtype"):
        return "cast", [i("dtype", 0)], []
    if op == "inner_prod" and known("transpose"):
        return "matmul", [int(bool(prm.get("transpose", False)))], []
    if op == "pad" and known("padding_value"):
        return op, [], [float(prm.get("padding_value", 0))]
    if op == "_resize2d" and known("type"):
        return "resize2d", [i("type", 0)], []
    if op == "affine_sample2d" and known("dim", "type", "outer_value"):
        if "outer_value" in prm:
            return op, [i("dim", -2), i("type", 0)], [float(prm["outer_value"])]
        return "affine_on_sample2d", [i("dim", -2), i("type", 0)], []
    return None


class Front:
    """a graph under construction"""

    def __init__(self, env):
        self.env, self.d, self.t = env, env.fe, env.t
        self.h = self.d.fe_new()
        self.keep = []

    def err(self):
        return self.d.fe_err().decode("latin1")

    def ok(self, r, what):
        if r < 0 or r is None:
            raise Violation(f"{what}: {self.err()}")
        return r

    def new(self, x):
        h = self.t.new(x)
        self.keep.append(h)
        return h

    def param(self, name, dtype=None, shape=None):
        return self.ok(self.d.fe_param(self.h, name.encode(), -1 if dtype is None else int(dtype), ia(shape or []), -1 if shape is None else len(shape)), f"param {name}")

    def data(self, name, x, device=None):
        return self.ok(self.d.fe_data(self.h, name.encode(), self.new(x), device), f"data {name}")

    def op(self, name, op, ins, prm=(), how=0):
        n = self.ok(self.d.fe_op(self.h, name.encode(), op.encode(), ia(ins), len(ins), how), f"op {name}")
        for k, v in dict(prm).items():
            v = fmt.t(v)
            self.ok(self.d.fe_set(self.h, n, k.encode(), self.new(v if v.dtype != 21 else np.asarray(v.np(), np.int32))) - 1, f"set {name}.{k}")
        return n

    def call(self, layer, f, name, ins, iv, fv):
        """ins: node indices or arrays"""
        nodes = [x if isinstance(x, int) else -1 for x in ins]
        hs = [None if isinstance(x, int) else self.new(x) for x in ins]
        return self.ok(self.d.fe_call(self.h, layer, f.encode(), name.encode(), ia(nodes), pa(hs), len(ins), ia(iv), len(iv), fa(fv)), f"{f} {name}")

    def drop(self):
        if self.h:
            self.d.fe_free(self.h)
            self.h = None
        for h in self.keep:
            self.t.free_Tensor(h)
        self.keep = []


def names_of(env, m, which):
    if not env.fe.fe_names(m, which):
        raise Violation("names: " + env.fe.fe_err().decode())
    return env.fe.fe_buf().decode("latin1").split("\n")[:-1]


class Built(ops.Session):
    """a session of one operator built by the frontend"""

    def __init__(self, src, env, op, n, params, consts, options, threads):
        a = args(op, params)
        if a is None:
            raise Discard
        self.t, self.op, self.n, self.consts = env.t, op, n, dict(consts)
        self.wb = None
        f, iv, fv = a
        layer = src.raw(3)
        plain = layer == 2
        if plain:
            # what the plain forms take
            for k in (1, 2):
                if k in self.consts and f in ("resize2d", "affine_sample2d", "affine_on_sample2d", "pad", "broadcast"):
                    c = fmt.t(self.consts[k]).np()
                    good = (c.dtype == np.float32 and c.shape == (3, 3)) if k == 2 else c.dtype == np.int32 and c.size > 0 and \
                        (c.shape == (2,) if f[0] == "a" else c.ndim == 1 if f != "pad" else c.ndim == 2 and c.shape[1] == 2)
                    if not good:
                        plain = False
            if not plain:
                layer = 1
        fe = Front(env)
        m = None
        try:
            order = list(range(n))
            ins = [None] * n
            names = []
            for i in order:
                if i in self.consts:
                    ins[i] = self.consts[i] if layer else fe.data(src.choice(["", f"c{i}"]), self.consts[i], src.choice([None, b"cpu"]))
                else:
                    names.append(f"x{i}")
                    ins[i] = fe.param(f"x{i}")
            y = fe.call(layer, f, "y", ins, iv, fv)
            m = env.fe.fe_module(fe.h, 1 if src.bool() else 2, ia([y]), sa(["y"]), 1)
            if not m:
                raise Violation(f"{f}: module: {fe.err()}")
            if not env.fe.fe_sort(m, fe.h, 0, None, sa(names), len(names)):
                raise Violation(f"{f}: sort_inputs {names}: {fe.err()}")
            if src.bool():
                fe.drop()
            self.wb = self.t.bench(m, options)
        finally:
            if m:
                self.t.free_Module(m)
            fe.drop()
        if threads:
            self.t.Workbench_set_computing_thread_number(self.wb, threads)


class FEnv:
    def __init__(self, src, env):
        self.src, self.env, self.t, self.libs = src, env, env.t, env.libs

    def session(self, op, n, params=None, consts=None, options=None, threads=None):
        return Built(self.src, self.env, op, n, params or {}, consts or {}, options, threads)


def t_binary(src, env):
    """arithmetic of broadcast shapes"""
    op = src.choice(["add", "sub", "mul", "div"])
    s = src.shape(src.int(0, 4), hi=6, limit=200)
    a = [1 if src.bool(0.2) else d for d in s]
    b = [1 if src.bool(0.3) else d for d in s]
    if src.bool(0.3):
        b = b[src.int(0, len(b)):]
    if src.bool(0.3):
        a, b = b, a
    dt = src.choice([np.float32, np.float32, np.float64, np.int32])
    x, y = src.iarray(a, np.int32, -9, 9).astype(dt), src.iarray(b, np.int32, -9, 9).astype(dt)
    if op == "div":
        y = np.where(y == 0, dt(3), y).astype(dt)
    w = {"add": np.add, "sub": np.subtract, "mul": np.multiply}[op](x, y) if op != "div" else (np.trunc(x.astype(np.float64) / y).astype(dt) if dt == np.int32 else (x / y).astype(dt))
    out = ops.run_op(src, env, op, [x, y], {}, const_ok=(0, 1))
    what = f"{op}({ops.ndesc(x)}, {ops.ndesc(y)})"
    ops.check(out, np.asarray(w), 1e-6, 0, what)
    return {"desc": f"{what} #{src.rec[-4:]}", "nt": np.size(w) >= 2, "labels": [op]}


FUNCS = dict(P31.FUNCS, binary=(t_binary, None), broadcast=(P16.t_repeat, "broadcast"))
FUNCS = {k: v for k, v in FUNCS.items()}


def t_built(src, env):
    """one operator as a node of a graph"""
    e = FEnv(src, env)
    k = src.choice(list(FUNCS))
    f, op = FUNCS[k]
    d = f(P31.Force(src, op), e)
    return {"desc": "built " + d["desc"], "nt": bool(d["nt"]), "labels": [k]}


class In(P31.Ctx):
    """ts::intime in a workbench"""

    def __init__(self, src, env):
        env.c = env.t
        env.cxx = None

        class S:
            def __init__(s, o):
                s.o = o
                s.first = True

            def __getattr__(s, k):
                return getattr(s.o, k)

            def bool(s, *a):
                if s.first:             # the choice of the C++ API
                    s.first = False
                    return False
                return s.o.bool(*a)
        super().__init__(S(src), env)
        self.src = src
        self.d = env.fe
        self.explicit = src.bool(0.3)

    def func(self, op, hs, prm, xs):
        a = args(op, prm)
        if a is None:
            raise Discard
        f, iv, fv = a
        raw = self.src.raw(4)
        if raw:
            for k in (1, 2):
                if k < len(xs) and f in ("resize2d", "affine_sample2d", "affine_on_sample2d", "broadcast", "gather"):
                    c = fmt.t(xs[k]).np()
                    if not ((c.dtype == np.float32 and c.shape == (3, 3)) if k == 2 else c.dtype == np.int32 and c.size > 0 and (c.shape == (2,) if f[0] == "a" else c.ndim == 1)):
                        raw = 0
        h = self.d.fe_intime(self.wb if self.explicit else None, raw, f.encode(), pa(hs), len(hs), ia(iv), len(iv), fa(fv))
        if not h:
            raise ApiError(self.d.fe_err().decode("latin1") or "no message")
        return h

    def close(self, ok):
        t = self.t
        if ok:
            self.between()
            self.again()
        for h, _, _ in self.kept:
            t.free_Tensor(h)
        t.free_Workbench(self.wb)
        if self.other:
            t.free_Workbench(self.other)


def t_intime(src, env):
    e = In(src, env)
    ok, nt, desc, labels = False, False, [], []
    try:
        for _ in range(src.weighted([(5, 1), (2, 2), (2, 4)])):
            k = src.choice(list(FUNCS))
            f, op = FUNCS[k]
            try:
                d = f(P31.Force(src, op), e)
            except Discard:
                continue
            desc.append(d["desc"])
            nt |= bool(d["nt"])
            labels.append("in " + k)
        if not desc:
            raise Discard
        ok = True
    finally:
        e.close(ok)
    return {"desc": f"intime {desc}", "nt": nt, "labels": labels}


def build(src, env, g, prefix=""):
    """the nodes of a generated graph in a Front; index of each value"""
    fe = Front(env)
    at = {}
    users = {}
    for v in g.vs:
        for a in v.args:
            users.setdefault(id(a), []).append(v)
    out = {id(v) for v in g.outputs}
    for v in g.vs:
        n = v.node
        if v.kind == "param":
            at[id(v)] = fe.param(n.name, src.choice([None, fmt.ID[v.val.dtype]]), src.choice([None, list(v.val.shape), [-1] * v.val.ndim]))
            continue
        if v.kind == "const":
            # given straight to the function that uses it, or a node
            if id(v) not in out and all(args(u.node.op, u.node.params) for u in users.get(id(v), [])) and users.get(id(v)) and src.bool(0.4):
                at[id(v)] = fmt.t(n.params["value"]).np()
            else:
                at[id(v)] = fe.data(n.name, n.params["value"], src.choice([None, b"cpu"]))
            continue
        a = args(n.op, n.params)
        ins = [at[id(x)] for x in v.args]
        if a and (src.bool(0.7) or not all(isinstance(i, int) for i in ins)):
            layer = src.raw(2)
            if layer == 0:
                ins = [i if isinstance(i, int) else fe.data("", i) for i in ins]
            at[id(v)] = fe.call(layer, a[0], n.name, ins, a[1], a[2])
        else:
            at[id(v)] = fe.op(n.name, n.op, ins, n.params, src.raw(4))
    return fe, at


def reachable(g, outs):
    seen, st = set(), list(outs)
    while st:
        v = st.pop()
        if id(v) not in seen:
            seen.add(id(v))
            st += v.args
    return seen


def run_module(env, m, xs, want, what, options=None):
    t = env.t
    wb = t.bench(m, options)
    try:
        if t.Workbench_input_count(wb) != len(xs) or t.Workbench_output_count(wb) != len(want):
            raise Violation(f"{what}: compiled to {t.Workbench_input_count(wb)} inputs and {t.Workbench_output_count(wb)} outputs instead of {len(xs)} and {len(want)}")
        for i, x in enumerate(xs):
            t.set_input(wb, i, x)
        t.run(wb)
        for i, (w, exact) in enumerate(want):
            graphgen.check_out(t.output(wb, i), w, exact, f"{what}: output {i}")
    finally:
        t.free_Workbench(wb)


def t_graph(src, env):
    d = env.fe
    g = graphgen.gen(src, max_ops=src.choice([3, 8, 12]), max_inputs=3)
    fe, at = build(src, env, g)
    t = env.t
    m = None
    labels = []
    fe2 = None
    err = lambda: d.fe_err().decode("latin1")

    def refuse(r, what):
        if r:
            raise Violation(f"{what}: accepted")
        if not err():
            raise Violation(f"{what}: refused without a message")
    try:
        real = lambda v: isinstance(at[id(v)], int)
        how = src.weighted([(3, "names"), (3, "nodes"), (2, "sinks")])
        outs = list(g.outputs)
        if how == "sinks":
            used = {id(a) for v in g.vs for a in v.args}
            outs = [v for v in g.vs if real(v) and id(v) not in used]
            if any(v.kind == "const" for v in outs):
                how, outs = "nodes", list(g.outputs)
        if how != "sinks":
            k = src.raw(3)
            if k == 0:
                outs = [outs[i] for i in src.perm(len(outs))]
            elif k == 1:
                outs = src.subset(outs, 0.6) or outs[:1]
            if src.bool(0.1):
                outs.append(outs[0])
        outs = [v for v in outs if real(v)]
        if not outs:
            raise Discard
        onames = [v.node.name for v in outs]
        oi = [at[id(v)] for v in outs]
        what = f"{g.describe()} by {how} {onames}"
        # what is refused
        if src.bool(0.2):
            bad = src.choice(["unknown", "foreign", "duplicate"])
            labels.append("refused " + bad)
            if bad == "unknown":
                ns = onames + ["nobody"]
                refuse(d.fe_module(fe.h, 2, None, sa(ns), len(ns)), f"{what}: outputs {ns}")
            elif bad == "duplicate":
                twin = Front(env)
                try:
                    twin.param("same")
                    a = twin.param("same2")
                    twin.op("y", "add", [a, a])
                    twin.op("y", "sub", [a, a])
                    refuse(d.fe_module(twin.h, 2, None, sa(["y"]), 1), "two nodes named y loaded by the name")
                finally:
                    twin.drop()
            else:
                other = Front(env)
                try:
                    for k in range(max(oi) + 1):
                        other.param(f"z{k}")
                    refuse(d.fe_foreign(other.h, fe.h, oi[0]), f"{what}: output {onames[0]} loaded from another graph")
                finally:
                    other.drop()
        two = src.bool(0.3)
        if two:
            m = d.fe_module(None, 0, None, None, 0)
            if not d.fe_load(m, fe.h, {"sinks": 0, "nodes": 1, "names": 2}[how], ia(oi), sa(onames), len(oi)):
                raise Violation(f"{what}: load: {err()}")
        else:
            m = d.fe_module(fe.h, {"sinks": 0, "nodes": 1, "names": 2}[how], ia(oi), sa(onames), len(oi))
            if not m:
                raise Violation(f"{what}: {err()}")
        if names_of(env, m, 1) != onames:
            raise Violation(f"{what}: the outputs are {names_of(env, m, 1)}")
        reach = reachable(g, outs)
        need = [v for v in g.inputs if id(v) in reach]
        have = names_of(env, m, 0)
        if sorted(have) != sorted(v.node.name for v in need):
            raise Violation(f"{what}: the inputs are {have}, the outputs need {[v.node.name for v in need]}")
        ins = [need[i] for i in src.perm(len(need))]
        # sorting that is refused leaves the inputs alone
        if src.bool(0.25):
            bad = src.choice(["unknown", "missing", "missing node"])
            labels.append("sort " + bad)
            ns = [v.node.name for v in ins]
            if bad == "unknown":
                ns = ns + ["nobody"]
                refuse(d.fe_sort(m, fe.h, 0, None, sa(ns), len(ns)), f"{what}: sort_inputs {ns}")
            elif ns:
                less = [v for i, v in enumerate(ins) if i != src.raw(len(ins))] if len(ins) > 1 else []
                if len(less) == len(ins):
                    less = ins[1:]
                if bad == "missing":
                    refuse(d.fe_sort(m, fe.h, 0, None, sa([v.node.name for v in less]), len(less)), f"{what}: sort_inputs to only {[v.node.name for v in less]}")
                else:
                    refuse(d.fe_sort(m, fe.h, 1, ia([at[id(v)] for v in less]), None, len(less)), f"{what}: sort_inputs to only {[v.node.name for v in less]}")
            if names_of(env, m, 0) != have:
                raise Violation(f"{what}: a refused sort_inputs changed the inputs from {have} to {names_of(env, m, 0)}")
        if src.bool(0.5):
            labels.append("sort names")
            if not d.fe_sort(m, fe.h, 0, None, sa([v.node.name for v in ins]), len(ins)):
                raise Violation(f"{what}: sort_inputs {[v.node.name for v in ins]}: {err()}")
        else:
            labels.append("sort nodes")
            if src.bool(0.3):       # inputs nothing needs may be listed too
                ins = ins + [v for v in g.inputs if v not in need]
                ins = [ins[i] for i in src.perm(len(ins))]
            if not d.fe_sort(m, fe.h, 1, ia([at[id(v)] for v in ins]), None, len(ins)):
                raise Violation(f"{what}: sort_inputs of nodes: {err()}")
        if names_of(env, m, 0) != [v.node.name for v in ins]:
            raise Violation(f"{what}: sorted to {[v.node.name for v in ins]} gave {names_of(env, m, 0)}")
        xs = {id(v): graphgen.data(src, v.val.shape) for v in g.inputs}
        g.eval([xs[id(v)] for v in g.inputs])
        want = [(g.memo[id(v)], v.exact) for v in outs]
        nt = sum(sum(int(np.size(z)) for z in w) if isinstance(w, (list, tuple)) else int(np.size(w)) for w, _ in want) >= 2
        hist = src.choice(["plain", "plain", "set", "more", "clear", "drop"])
        labels.append(hist)
        X = [xs[id(v)] for v in ins]
        opts = src.choice([None, None, "--no-pack", "--filter"])
        if hist == "plain":
            run_module(env, m, X, want, what, opts)
        elif hist == "drop":
            # the module keeps what it needs
            fe.drop()
            run_module(env, m, X, want, what + " after the graph went", opts)
        elif hist == "set":
            cs = [v for v in g.vs if v.kind == "const" and real(v) and v.val.dtype == np.float32 and id(v) in reach]
            if src.bool(0.5):
                run_module(env, m, X, want, what, opts)
            for v in src.subset(cs, 0.5) or cs[:1]:
                new = graphgen.data(src, v.val.shape)
                if (np.asarray(v.val) != 0).all():
                    new = np.where(new == 0, np.float32(1), new).astype(np.float32)
                h = t.new(new)
                if not d.fe_set_param(m, v.node.name.encode(), b"value", h):
                    raise Violation(f"{what}: set_param: {err()}")
                t.free_Tensor(h)
                v.fn = lambda new=new: new
                labels.append("set_param")
            h = t.new(np.float32(1))
            d.fe_set_param(m, b"nobody at all", b"value", h)
            t.free_Tensor(h)
            g.eval([xs[id(v)] for v in g.inputs])
            want = [(g.memo[id(v)], v.exact) for v in outs]
            run_module(env, m, X, want, what + " after set_param", opts)
        elif hist == "clear":
            d.fe_clear(m)
            if names_of(env, m, 0) or names_of(env, m, 1):
                raise Violation(f"{what}: cleared, with inputs {names_of(env, m, 0)} and outputs {names_of(env, m, 1)}")
            if not d.fe_load(m, fe.h, 1, ia(oi), None, len(oi)) or not d.fe_sort(m, fe.h, 1, ia([at[id(v)] for v in ins]), None, len(ins)):
                raise Violation(f"{what}: after clear: {err()}")
            run_module(env, m, X, want, what + " after clear", opts)
        else:
            # another graph into the same module
            g2 = graphgen.gen(src, max_ops=3, max_inputs=2, prefix="q")
            fe2, at2 = build(src, env, g2)
            outs2 = [v for v in g2.outputs if isinstance(at2[id(v)], int)]
            if not outs2:
                raise Discard
            if not d.fe_load(m, fe2.h, 1, ia([at2[id(v)] for v in outs2]), None, len(outs2)):
                raise Violation(f"{what}: second load: {err()}")
            r2 = reachable(g2, outs2)
            ins2 = [v for v in g2.inputs if id(v) in r2]
            if names_of(env, m, 1) != onames + [v.node.name for v in outs2]:
                raise Violation(f"{what}: outputs after the second load: {names_of(env, m, 1)}")
            al = [(v, xs[id(v)]) for v in ins if v in need] + [(v, graphgen.data(src, v.val.shape)) for v in ins2]
            x2 = {id(v): x for v, x in al}
            g2.eval([x2.get(id(v), v.val) for v in g2.inputs])
            al = [al[i] for i in src.perm(len(al))]
            extra = [v for v in ins if v not in need]
            if extra:
                al += [(v, xs[id(v)]) for v in extra]
            ns = [v.node.name for v, _ in al]
            if not d.fe_sort(m, fe.h, 0, None, sa(ns), len(ns)):
                raise Violation(f"{what}: sort_inputs {ns} after the second load: {err()}")
            run_module(env, m, [x for _, x in al], want + [(g2.memo[id(v)], v.exact) for v in outs2], f"{what} and {g2.describe()}", opts)
        return {"desc": f"{what} inputs {[v.node.name for v in ins]} {hist} #{src.rec[-4:]}", "nt": bool(nt), "labels": labels + [how]}
    finally:
        if m:
            t.free_Module(m)
        fe.drop()
        if fe2:
            fe2.drop()


TARGETS = {"built": t_built, "intime": t_intime, "graph": t_graph}
WEIGHTS = {"built": 3, "intime": 2, "graph": 3}
