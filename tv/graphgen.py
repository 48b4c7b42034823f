"""Random operator graphs together with an independent numpy evaluation of each node.

Values are small integers held in float32 (every intermediate result is exactly representable), so the reference is
bit-exact for most graphs; the few transcendental nodes mark everything after them as inexact."""
import numpy as np
from . import fmt
from .gen import Violation, Discard

F = np.float32
I = lambda v: np.asarray(v, np.int32)
LIM = float(1 << 21)


class V:
    """node, reference function over argument values, magnitude bound, value for the first inputs"""
    __slots__ = ("node", "args", "fn", "val", "bound", "exact", "kind", "alias")

    def __init__(self, node, args, fn, val, bound, exact=True, kind="op"):
        self.node, self.args, self.fn, self.val, self.bound, self.exact, self.kind = node, args, fn, val, bound, exact, kind


class Graph:
    def __init__(self):
        self.vs, self.inputs, self.outputs = [], [], []

    def eval(self, xs):
        """outputs (list of ndarray / list of ndarrays for packed values) for the given inputs"""
        memo = {id(v): x for v, x in zip(self.inputs, xs)}

        def ev(v):
            k = id(v)
            if k not in memo:
                memo[k] = v.fn(*[ev(a) for a in v.args])
            return memo[k]
        for v in self.vs:       # in creation order: no deep recursion
            if v.kind != "param":
                ev(v)
        self.memo = memo
        return [memo[id(v)] for v in self.outputs]

    def encode(self, **k):
        return fmt.enc_module([v.node for v in self.inputs], [v.node for v in self.outputs], **k)

    def describe(self):
        used = set()

        def walk(v):
            if id(v) not in used:
                used.add(id(v))
                for a in v.args:
                    walk(a)
        for v in self.outputs + self.inputs:
            walk(v)
        return "; ".join(f"{v.node.name}={v.node.op}({','.join(a.node.name for a in v.args)})"
                         + (f"{list(v.val.shape)}" if isinstance(v.val, np.ndarray) and v.kind != "op" else "")
                         for v in self.vs if id(v) in used) + " -> " + ",".join(v.node.name for v in self.outputs)


def copy(g):
    """the same graph with other identities"""
    m, r = {}, Graph()
    for v in g.vs:
        m[id(v)] = w = V(v.node, [m[id(a)] for a in v.args], v.fn, v.val, v.bound, v.exact, v.kind)
        r.vs.append(w)
    r.inputs, r.outputs = [m[id(v)] for v in g.inputs], [m[id(v)] for v in g.outputs]
    return r


def data(src, shape, hi=4):
    return src.iarray(shape, np.int32, -hi, hi).astype(F)


def _bshape(src, s):
    """a shape broadcastable with s to s"""
    k = src.raw(5)
    if k == 0 or not s:
        return s
    if k == 1:
        return ()
    if k == 2:
        return s[-1:]
    if k == 3:
        return tuple(d if src.bool(0.6) else 1 for d in s)
    return s[src.raw(len(s)):]


def gen(src, max_ops=12, max_inputs=3, names=None, inexact=True, dtypes=False, const_p=0.25, heavy=True, outs=None,
        weird_outputs=True, min_ops=1, prefix="", batch=False, unused=True, multi=True, boost=0, in_dtype=None,
        given=()):
    g = Graph()
    cnt = [0]

    def nm(p="n"):
        cnt[0] += 1
        return f"{prefix}{p}{cnt[0]}"

    def add(v):
        g.vs.append(v)
        return v

    def mkconst(x, bound=None):
        x = np.asarray(x)
        return add(V(fmt.const(x, nm("c")), [], lambda x=x: x, x, float(np.abs(x).max()) if x.size else 0.0, True, "const"))

    def op(name, args, fn, bound, exact=None, **params):
        val = fn(*[a.val for a in args])
        n = fmt.Node(name, [a.node for a in args], nm(), params)
        return add(V(n, list(args), fn, val, bound, all(a.exact for a in args) if exact is None else exact))

    nin = src.int(1, max_inputs)
    base = None
    for i in range(nin):
        if base is None or src.bool(0.4):
            base = src.shape(src.choice([2, 4]) if boost and src.bool(0.7) else src.int(1, 4), hi=5, limit=120)
        s = base if src.bool(0.8) else base[::-1]
        x = data(src, s)
        p = fmt.param(f"{prefix}x{i}", dtype=in_dtype if in_dtype is not None and src.bool(0.6) else None)
        g.inputs.append(add(V(p, [], None, x, 4.0, True, "param")))
    for j, (x, bound, exact) in enumerate(given):         # inputs that take these values
        v = add(V(fmt.param(f"{prefix}g{j}"), [], None, x, bound, exact, "param"))
        g.inputs.insert(src.raw(len(g.inputs) + 1), v)
        v.alias = j

    def arrays(pred=None):
        return [v for v in g.vs if isinstance(v.val, np.ndarray) and v.val.dtype == F and (pred is None or pred(v))]

    def pick(pred=None):
        # prefer recent nodes so that chains get deep, but keep sharing frequent
        xs = arrays(pred)
        if not xs:
            return None
        k = src.raw(3)
        return xs[-1 - src.raw(min(3, len(xs)))] if k else xs[src.raw(len(xs))]

    def partner(a):
        """second operand broadcastable with a"""
        if src.bool(const_p):
            return mkconst(data(src, _bshape(src, a.val.shape), 3))

        def ok(v):
            try:
                np.broadcast_shapes(a.val.shape, v.val.shape)
                return True
            except ValueError:
                return False
        return pick(ok)

    def step():
        k = src.weighted([(6, "bin"), (4, "un"), (2, "perm"), (2, "reshape"), (2, "concat"), (2, "reduce"), (2, "multi"),
                          (1, "stack"), (1, "slice"), (1, "pad"), (1, "copy"), (2 + boost, "mat"), (1, "const"), (1, "squeeze"),
                          (1, "gather"), (1 + boost, "conv"), (1, "shape")])
        a = pick(lambda v: v.val.size <= 3000)
        if a is None:
            return
        s = a.val.shape
        if k == "bin":
            o = src.choice(["add", "sub", "mul", "maximum"])
            b = partner(a)
            if b is None:
                return
            if src.bool():
                a, b = b, a
            bd = a.bound * b.bound if o == "mul" else max(a.bound, b.bound) if o == "maximum" else a.bound + b.bound
            if bd > (LIM if a.exact and b.exact else 64):
                return
            if np.broadcast_shapes(a.val.shape, b.val.shape) and np.prod(np.broadcast_shapes(a.val.shape, b.val.shape)) > 6000:
                return
            op(o, [a, b], {"add": np.add, "sub": np.subtract, "mul": np.multiply, "maximum": np.maximum}[o], bd)
        elif k == "un":
            o = src.choice(["abs", "relu", "square", "floor", "relu_max", "to_float"] + (["sigmoid", "tanh"] if inexact else []))
            if o == "abs":
                op(o, [a], np.abs, a.bound)
            elif o == "relu":
                op(o, [a], lambda x: np.maximum(x, F(0)), a.bound)
            elif o == "square" and a.bound ** 2 <= (LIM if a.exact else 64):
                op(o, [a], lambda x: x * x, a.bound ** 2)
            elif o == "floor" and a.exact:
                op(o, [a], np.floor, a.bound)
            elif o == "relu_max":
                m = src.int(1, 6)
                op(o, [a], lambda x: np.minimum(np.maximum(x, F(0)), F(m)), float(m), max=F(m))
            elif o == "to_float":
                op(o, [a], lambda x: x.astype(F), a.bound)
            elif o == "sigmoid":
                op(o, [a], lambda x: (1 / (1 + np.exp(-np.clip(x.astype(np.float64), -700, 700)))).astype(F), 1.0, False)
            elif o == "tanh":
                op(o, [a], lambda x: np.tanh(x.astype(np.float64)).astype(F), 1.0, False)
        elif k == "perm" and len(s) >= 1:
            p = src.perm(len(s))
            op("_transpose", [a], lambda x: x.transpose(p), a.bound, permute=I(p))
        elif k == "reshape":
            kind = src.raw(3)
            if kind == 0 and len(s) >= 1:
                op("flatten", [a], lambda x: x.reshape(x.shape[0], -1), a.bound)
            elif kind == 1 and len(s) >= 2:
                i = src.raw(len(s) - 1)
                t = list(s[:i]) + [s[i] * s[i + 1]] + list(s[i + 2:])
                if len(t) > 1 and i != 0:
                    t[0] = -1 if batch or src.bool() else t[0]
                op("_reshape", [a], lambda x: x.reshape(t), a.bound, shape=I(t))
            else:
                i = src.int(0, len(s))
                if len(s) < 5:
                    op("unsqueeze", [a], lambda x: np.expand_dims(x, i), a.bound, axes=I([i]))
        elif k == "concat" and len(s) >= 1:
            d = src.raw(len(s))
            xs = [a]
            for _ in range(src.int(1, 2)):
                b = pick(lambda v: v.val.ndim == len(s) and all(i == d or v.val.shape[i] == s[i] for i in range(len(s))))
                xs.append(b)
            if src.bool(0.3):
                xs.append(mkconst(data(src, s[:d] + (src.int(1, 2),) + s[d + 1:])))
            if sum(v.val.size for v in xs) < 6000:
                op("concat", xs, lambda *v: np.concatenate(v, d), max(v.bound for v in xs), dim=np.int32(d))
        elif k == "reduce" and len(s) >= 1:
            d = src.raw(len(s))
            kd = src.bool()
            bd = a.bound * s[d]
            if bd <= LIM and (kd or len(s) > 1):
                if src.bool(0.3):
                    op("max", [a], lambda x: x.max(axis=d, keepdims=kd), a.bound, dim=np.int32(d), keep_dims=kd)
                else:
                    op("reduce_sum", [a], lambda x: x.sum(axis=d, keepdims=kd, dtype=F), bd, dims=I([d]), keep_dims=kd)
        elif k == "multi" and multi and len(s) >= 1:
            d = src.raw(len(s))
            if src.bool() and s[d] >= 2:
                n = src.choice([c for c in (2, 3, 4, 5) if s[d] % c == 0] or [s[d]])
                m = op("chunk", [a], lambda x: np.split(x, n, d), a.bound, chunks=np.int32(n), dim=np.int32(d))
            else:
                b = pick()
                xs = [a, b] + ([pick()] if src.bool(0.3) else [])
                n = len(xs)
                m = op("_pack", xs, lambda *v: list(v), max(v.bound for v in xs))
            for i in sorted(set(src.raw(n) for _ in range(src.int(1, 3)))):
                f = op("_field", [m], lambda v, i=i: v[i], m.bound, offset=np.int32(i))
                if len(m.args) == n and m.node.op == "_pack":
                    f.exact = m.args[i].exact
        elif k == "stack" and len(s) < 5:
            b = pick(lambda v: v.val.shape == s)
            d = src.int(0, len(s))
            op("stack", [a, b], lambda *v: np.stack(v, d), max(a.bound, b.bound), axis=np.int32(d))
        elif k == "slice" and len(s) >= 1:
            beg = [src.int(0, n - 1) for n in s]
            size = [src.int(1, n - i) if src.bool(0.5) else -1 for n, i in zip(s, beg)]
            if batch:
                beg[0], size[0] = 0, -1
            def cut(x):
                for d, i, z in zip(x.shape, beg, size):
                    if i >= d or i + max(z, 0) > d:
                        raise ValueError("slice outside")
                return x[tuple(slice(i, None if z < 0 else i + z) for i, z in zip(beg, size))]
            op("slice", [a], cut, a.bound,
               begin=I(beg), size=I(size))
        elif k == "pad" and len(s) >= 1:
            pad = [[src.int(0, 2), src.int(0, 2)] for _ in s]
            c = mkconst(I(pad))
            v = src.int(-2, 2)
            op("pad", [a, c], lambda x, q: np.pad(x, q, constant_values=v), max(a.bound, abs(v)), padding_value=F(v))
        elif k == "copy":
            op("_copy", [a], lambda x: x, a.bound)
        elif k == "mat" and heavy:
            a = pick(lambda v: v.val.ndim == 2)
            if a is None:
                return
            kdim = a.val.shape[1]
            if a.bound * 3 * kdim > LIM or not a.exact:
                return
            if src.bool(0.3):
                b = pick(lambda v: v.val.ndim == 2 and v.val.shape[0] == kdim)
                if b is not None and a.bound * b.bound * kdim <= LIM and b.exact:
                    op(src.choice(["inner_prod", "matmul"]), [a, b], lambda x, y: x @ y, a.bound * b.bound * kdim)
                return
            n = src.choice([1, 2, 3, 5, 8, 9])
            t = src.bool(0.4)
            w = mkconst(data(src, (n, kdim) if t else (kdim, n), 3))
            if src.bool(0.6):
                op("inner_prod", [a, w], lambda x, y: x @ (y.T if t else y), a.bound * 3 * kdim, transpose=t)
            else:
                c = mkconst(data(src, src.choice([(n,), (1, n), ()]), 3))
                al, be = src.choice([1, 2]), src.choice([0, 1, 2])
                op("gemm", [a, w, c], lambda x, y, z: (F(al) * (x @ (y.T if t else y)) + F(be) * z).astype(F),
                   a.bound * 3 * kdim * al + 3 * be, alpha=F(al), beta=F(be), transA=False, transB=t)
        elif k == "const":
            # an operator over constants only: folded at compile time
            c = mkconst(data(src, _bshape(src, s), 3))
            d = mkconst(data(src, c.val.shape, 3))
            o = src.choice(["add", "mul", "sub"])
            e = op(o, [c, d], {"add": np.add, "mul": np.multiply, "sub": np.subtract}[o], 9.0)
            if src.bool(0.7) and a.bound + 9 <= LIM:
                op("add", [a, e], np.add, a.bound + 9)
        elif k == "squeeze" and 1 in s:
            ax = [i for i, n in enumerate(s) if n == 1 and not (batch and i == 0)]
            if ax:
                i = src.choice(ax)
                op("squeeze", [a], lambda x: np.squeeze(x, i), a.bound, axes=I([i]))
        elif k == "gather" and len(s) >= 1:
            d = src.raw(len(s))
            idx = mkconst(I([src.raw(s[d]) for _ in range(src.int(1, 4))]))
            op("gather", [a, idx], lambda x, j: np.take(x, j, d), a.bound, axis=np.int32(d))
        elif k == "conv" and heavy:
            a = pick(lambda v: v.val.ndim == 4)
            if a is None or not a.exact:
                return
            n_, c_, h, w_ = a.val.shape
            kh, kw = src.int(1, min(3, h)), src.int(1, min(3, w_))
            bd = a.bound * 2 * c_ * kh * kw
            if bd > LIM:
                return
            ker = mkconst(data(src, (src.choice([1, 2, 8, 9]), c_, kh, kw), 2))

            def conv(x, w):
                if x.shape[1] != w.shape[1]:
                    raise ValueError("channels")
                win = np.lib.stride_tricks.sliding_window_view(x, w.shape[2:], (2, 3))
                return np.einsum("nchwij,ocij->nohw", win, w).astype(F)
            op("conv2d", [a, ker], conv, bd, format="NCHW", padding=np.zeros((4, 2), np.int32), stride=I([1] * 4),
               dilation=I([1] * 4), padding_value=F(0))
        elif k == "shape" and len(s) >= 1:
            m = op("_shape", [a], lambda x: I(x.shape), 10.0)
            op("to_float", [m], lambda x: x.astype(F), float(max(s + (1,))) + 100)

    want = src.int(min_ops, max_ops)
    for _ in range(want * 3):
        if sum(v.kind == "op" for v in g.vs) >= want:
            break
        step()
    opsn = [v for v in g.vs if v.kind == "op"]
    no = outs or src.weighted([(4, 1), (3, 2), (2, 3), (1, 4)])
    pool = opsn or g.vs
    for _ in range(no):
        if opsn and src.bool(0.6):
            v = opsn[-1 - src.raw(min(4, len(opsn)))]
        elif weird_outputs and src.bool(0.25):
            v = g.vs[src.raw(len(g.vs))]           # an input, a constant or the same node twice
        else:
            v = pool[src.raw(len(pool))]
        if not weird_outputs and v in g.outputs:
            continue
        g.outputs.append(v)
    if not unused:
        used = reach(g)
        g.inputs = [v for v in g.inputs if id(v) in used]
    return g


def reach(g):
    used, st = set(), list(g.outputs)
    while st:
        v = st.pop()
        if id(v) not in used:
            used.add(id(v))
            st += v.args
    return used


def check_out(got, want, exact, what):
    """got: list of T fields"""
    ws = want if isinstance(want, list) else [want]
    if len(got) != len(ws):
        raise Violation(f"{what}: {len(got)} fields, expected {len(ws)}")
    from . import ops
    for i, (a, w) in enumerate(zip(got, ws)):
        sc = float(np.abs(w).max()) if w.size else 0.0
        if exact or w.dtype != F:
            ops.check(a, w, 0, 0, what)
        else:
            ops.check(a, w, 2e-4, 1e-5, what, scale=sc)


def numel(g, outs):
    return sum((sum(x.size for x in o) if isinstance(o, list) else o.size) for o in outs)
