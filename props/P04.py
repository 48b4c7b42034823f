"""Whole programs: a random graph compiled and run against its node-by-node numpy evaluation."""
import numpy as np
from tv import fmt, ops, graphgen
from tv.gen import Violation, Discard

ID = "P04"
RULE = ("a random operator graph (1-14 operators: shared sub-expressions, packed multi-value nodes and fields, constants and "
        "constant-only sub-graphs, unused inputs, outputs that are inputs / constants / repeated), stored with a random node "
        "order, compiled with random options, run 1-3 times with new data (sometimes new shapes) on 1-4 threads; non-trivial = "
        "at least 3 operators and 2 output elements; distinct by graph, options and data seed")
CASES = {"quick": 45000, "thorough": 500000}
OPTS = [None, "", "--no-pack", "--pack", "--no-filter"]


def setup(libs):
    return ops.Env(libs)


def t_graph(src, env):
    g = graphgen.gen(src, max_ops=src.choice([4, 8, 14]), batch=src.bool(0.3))
    nodes = fmt.topo([v.node for v in g.outputs], [v.node for v in g.inputs])
    if src.bool(0.4):
        nodes = [nodes[i] for i in src.perm(len(nodes))]
    opt, th = src.choice(OPTS), src.choice([None, 1, 2, 3])
    t = env.t
    what = f"graph {g.describe()} options={opt!r}"
    m = t.module(g.encode(nodes=nodes))
    try:
        wb = t.bench(m, opt)
    finally:
        t.free_Module(m)
    n = 0
    try:
        if th:
            t.Workbench_set_computing_thread_number(wb, th)
        if t.Workbench_input_count(wb) != len(g.inputs) or t.Workbench_output_count(wb) != len(g.outputs):
            raise Violation(f"{what}: {t.Workbench_input_count(wb)} inputs, {t.Workbench_output_count(wb)} outputs")
        xs = [v.val for v in g.inputs]
        for r in range(src.weighted([(5, 1), (3, 2), (2, 3)])):
            want = None
            if r:
                if src.bool(0.3):
                    b = src.int(1, 4)
                    ys = [graphgen.data(src, (b,) + x.shape[1:]) if x.ndim else x for x in xs]
                    try:
                        want = g.eval(ys)
                        xs = ys
                    except (ValueError, IndexError):
                        want = None
                if want is None:
                    xs = [graphgen.data(src, x.shape) for x in xs]
            if want is None:
                want = g.eval(xs)
            byname = src.bool(0.2)
            hs = []
            for i, x in enumerate(xs):
                h = t.new(x)
                hs.append(h)
                t.set_input(wb, g.inputs[i].node.name if byname else i, h)
            t.run(wb)
            names = [v.node.name for v in g.outputs]
            for i, v in enumerate(g.outputs):
                got = t.output(wb, names[i] if byname else i)
                graphgen.check_out(got, want[i], v.exact, f"{what} run {r} output {i}")
            for h, x in zip(hs, xs):
                if t.peek(h) != fmt.t(x):
                    raise Violation(f"{what} run {r}: input tensor modified")
                t.free_Tensor(h)
            n = graphgen.numel(g, want)
    finally:
        t.free_Workbench(wb)
    k = sum(v.kind == "op" for v in g.vs)
    labels = sorted({v.node.op for v in g.vs})
    used = graphgen.reach(g)
    if any(id(v) not in used for v in g.inputs):
        labels.append("unused-input")
    if len({id(v) for v in g.outputs}) < len(g.outputs):
        labels.append("repeated-output")
    if any(v.kind != "op" for v in g.outputs):
        labels.append("leaf-output")
    return {"desc": f"{what[:400]} #{src.rec[-3:]}", "nt": k >= 3 and n >= 2, "labels": labels}


TARGETS = {"graph": t_graph}
