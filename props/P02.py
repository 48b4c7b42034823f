"""Module files: loading and saving lose nothing and add nothing."""
import ctypes as C
import os
import numpy as np
from tv import fmt, ops, graphgen, shim
from tv.gen import Violation, Discard
from tv.api import ApiError, Stream
from props import P01

ID = "P02"
RULE = ("a module of a random graph (repeated / leaf outputs, unused inputs, shared nodes, equal names, nodes nobody uses, "
        "random node and parameter order, any header), whose nodes carry generated extra parameters (any name, any tensor of "
        "the format, packed too), loaded by every loading entry point, saved, decoded by an independent decoder, loaded and "
        "saved again, and (when runnable) executed before and after; non-trivial = at least 2 operators; distinct by content")
CASES = {"quick": 60000, "thorough": 800000}
SHIMS = ("mod",)


def setup(libs):
    return P01.setup(libs)


def load(src, env, data):
    t = env.t
    k = src.weighted([(4, "stream"), (3, "streamV2"), (1, "file"), (1, "fileV2")])
    if k == "stream":
        return k, t.module(data)
    if k == "streamV2":
        s = Stream(data)
        h = t.Module_LoadFromStreamV2(C.c_void_p(1), s.r, s.w, None, 0, 0)
    else:
        path = os.path.join(env.scratch, "m.tsm")
        open(path, "wb").write(data)
        h = t.Module_Load(path.encode(), 0) if k == "file" else t.Module_LoadV2(path.encode(), C.cast(C.create_string_buffer(b"reserved"), C.c_void_p), 0, 0)
    if not h:
        raise Violation(f"{k}: load failed: {t.err()}")
    return k, h


def t_module(src, env):
    t = env.t
    g = graphgen.gen(src, max_ops=src.choice([2, 5, 12]), batch=True)
    nodes = fmt.topo([v.node for v in g.outputs], [v.node for v in g.inputs])
    runnable = src.bool(0.4)
    if not runnable:
        for n in nodes:
            if src.bool(0.3):
                for _ in range(src.int(1, 3)):
                    name = src.choice(["", "p", "#x", "#shape2", "value2", "\xe9\u4f60", "a b", "\0z", "k" * 40, "#device"])
                    n.params[name.encode().decode("latin1") if False else name] = (
                        [P01.rnd(src, P01.ALL) for _ in range(src.int(1, 3))] if src.bool(0.3) else P01.rnd(src, P01.ALL))
            if src.bool(0.1):
                n.params["#shape"] = np.asarray([src.int(-1, 5) for _ in range(src.int(1, 5))], np.int32)
            if src.bool(0.1):
                n.params["#dtype"] = np.int32(src.int(0, 24))
            if src.bool(0.1):
                n.output_count = 1
            if src.bool(0.1):
                n.name = src.choice(["", "same", "\u4f60\u597d", "<param>", "n\0x", "a/b:0"])
            if n.op not in ("<param>", "<const>") and src.bool(0.05):
                n.op = src.choice(["my::op", "\u65b0", "x" * 70])
    used = list(nodes)
    if src.bool(0.3):
        for i in range(src.int(1, 2)):                      # nodes nobody uses
            a = src.choice(nodes)
            nodes.append(fmt.Node("relu", [a], f"dead{i}"))
    if src.bool(0.5):
        nodes = [nodes[i] for i in src.perm(len(nodes))]
    order = (lambda items: [items[i] for i in src.perm(len(items))]) if src.bool(0.3) else None
    data = g.encode(nodes=nodes, order=order, fake=src.choice([0, 1, 0xffffffff]),
                    pad=src.nprng().bytes(120) if src.bool(0.3) else None)
    what = f"module {g.describe()}"
    for n in used:
        if n.output_count is not None:
            n.params["#output_count"] = np.int32(n.output_count)
    want = shim.canon_nodes([v.node for v in g.inputs], [v.node for v in g.outputs], used)
    # names and operators are compared as stored bytes
    want["nodes"] = [(a.encode().decode("latin1"), b.encode().decode("latin1"),
                      tuple((k.encode().decode("latin1"), v) for k, v in c), d) for a, b, c, d in want["nodes"]]

    def run(data, xs):
        m = t.module(data)
        try:
            wb = t.bench(m)
        finally:
            t.free_Module(m)
        try:
            for i, x in enumerate(xs):
                t.set_input(wb, i, x)
            t.run(wb)
            return [t.output(wb, i) for i in range(len(g.outputs))]
        finally:
            t.free_Workbench(wb)

    cur = data
    routes = []
    for r in range(src.int(1, 2)):
        k, m = load(src, env, cur)
        routes.append(k)
        try:
            if src.bool(0.2):
                path = os.path.join(env.scratch, "s.tsm")
                if src.bool(0.2):
                    open(path, "wb").write(b"y" * 90000)
                if env.mod.d.tv_module_save_file(m, path.encode()) < 0:
                    raise Violation(f"{what}: save failed: {env.mod.err()}")
                out = open(path, "rb").read()
            else:
                out = env.mod.save(m)
        finally:
            t.free_Module(m)
        try:
            got = shim.canon(out)
        except fmt.Bad as e:
            raise Violation(f"{what}: saved module does not follow the format: {e}")
        want2 = dict(want)
        for x in want2["nodes"]:
            pass
        got["nodes"] = [(a, b, tuple(sorted(c)), d) for a, b, c, d in got["nodes"]]
        want2["nodes"] = [(a, b, tuple(sorted(c)), d) for a, b, c, d in want2["nodes"]]
        d = shim.diff(want2, got)
        if d:
            raise Violation(f"{what} (load by {k}, round {r}): {d}")
        cur = out
    if runnable:
        xs = [v.val for v in g.inputs]
        a, b = run(data, xs), run(cur, xs)
        w = g.eval(xs)
        for i, v in enumerate(g.outputs):
            graphgen.check_out(b[i], w[i], v.exact, f"{what}: output {i} of the module saved and loaded again")
            if a[i] != b[i]:
                raise Violation(f"{what}: output {i} differs after saving and loading")
    k = sum(v.kind == "op" for v in g.vs)
    return {"desc": f"{what[:300]} #{src.rec[-3:]}", "nt": k >= 2, "labels": routes + (["run"] if runnable else ["structure"])}


def t_bubble(src, env):
    """one node: copies, moves and assignments keep everything"""
    n = fmt.Node(src.choice(["add", "<const>", "<param>", "x"]), [], src.choice(["n", "", "name"]))
    for _ in range(src.int(0, 4)):
        n.params[src.choice(["a", "b", "value", "#x", "p" * 30])] = P01.rnd(src, P01.ALL)
    shape, dt = [], 0
    if src.bool():
        shape = [src.int(-1, 300) for _ in range(src.int(1, 6))]
        n.params["#shape"] = np.asarray(shape, src.choice([np.int32, np.int64, np.uint8])) if min(shape) >= 0 and max(shape) < 256 else np.asarray(shape, np.int32)
    if src.bool():
        dt = src.int(1, 24)
        n.params["#dtype"] = np.int32(dt)
    data = fmt.enc_bubble(n)
    mode = src.raw(7)
    k = env.mod.d.tv_bubble(data, len(data), mode)
    if k < 0:
        raise Violation(f"bubble {n.op} {list(n.params)} mode {mode}: {env.mod.err()}")
    out = env.mod.buf(k)

    def params(b):
        r = fmt.R(b)
        return {r.string(): [(x.dtype, x.shape, x.data) for x in r.packed()] for _ in range(r.u32())}
    if params(out) != params(data) or len(out) != len(data):
        raise Violation(f"bubble {n.op} {list(n.params)} changed by mode {mode}: {params(data)} -> {params(out)}"[:600])
    info = (C.c_int32 * 16)()
    k = env.mod.d.tv_bubble_info(data, len(data), C.cast(info, C.c_void_p), 16)
    if k < 0 or env.mod.buf(k) != f"{n.op}\t{n.name}".encode() or info[0] != dt or list(info[2:2 + info[1]]) != shape:
        raise Violation(f"bubble {n.op}/{n.name} dtype {dt} shape {shape}: read back {env.mod.buf(max(k, 0))} {list(info[:8])}")
    return {"desc": f"bubble {n.op} {list(n.params)} mode {mode} #{src.rec[-3:]}", "nt": len(n.params) > 0, "labels": [f"mode{mode}"]}


TARGETS = {"module": t_module, "bubble": t_bubble}
WEIGHTS = {"module": 3, "bubble": 1}
