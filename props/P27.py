"""Fused modules compute the composition of their parts."""
import numpy as np
from tv import fmt, ops, graphgen, shim
from tv.gen import Violation, Discard
from tv.api import ApiError

ID = "P27"
RULE = ("two to four modules of random graphs (leaf and repeated outputs, unused inputs, equal node names), fused one after the other by "
        "output slot to input slot, the newest on either side, a module with itself, -1 slots and impossible slots included; the fused module, loaded directly "
        "or saved and loaded, is run on random inputs and compared with evaluating the parts; non-trivial = at least 2 operators in "
        "total; distinct by graphs and slots")
CASES = {"quick": 50000, "thorough": 250000}
SHIMS = ("mod",)


def setup(libs):
    env = ops.Env(libs)
    env.mod = shim.Mod(libs["mod"])
    return env


class Part:
    """module handle with its reference: ins = slots (graph, input), outs = slots (graph, output)"""

    def __init__(self, h, ins, outs, n):
        self.h, self.ins, self.outs, self.n = h, ins, outs, n


def t_fuse(src, env):
    t = env.t
    handles, desc = [], []
    links = {}          # id(input V) -> (graph, output V)
    graphs = []

    def part(given=()):
        g = graphgen.gen(src, max_ops=src.choice([2, 4, 8]), prefix=src.choice(["", "", f"m{len(graphs)}_"]), given=given, batch=True,
                         max_inputs=src.choice([1, 2, 3]))
        graphs.append(g)
        h = t.module(g.encode())
        handles.append(h)
        desc.append(g.describe())
        return Part(h, [(g, v) for v in g.inputs], [(g, v) for v in g.outputs], sum(v.kind == "op" for v in g.vs))

    def single(p):
        return [i for i, (g, v) in enumerate(p.outs) if isinstance(v.val, np.ndarray) and v.val.dtype == np.float32 and v.bound < 1e4]

    try:
        a = part()
        for _ in range(src.weighted([(6, 1), (3, 2), (1, 3)])):
            back = src.bool(0.3)
            if back:
                # the new module in front
                k = src.raw(len(a.ins))
                x = a.ins[k][1]
                b = part([(x.val, 4.0, True)])
                graphs.insert(0, graphs.pop())
                cand = [i for i in single(b) if b.outs[i][1].val.shape == x.val.shape and b.outs[i][1].exact]
                if not cand:
                    graphs.pop(0)
                    continue
                front, tail, i, j = b, a, src.choice(cand), k
            else:
                # values of other types and packed values are not inputs of the generated graphs
                cand = single(a)
                if not cand:
                    break
                i = src.choice(cand)
                v = a.outs[i][1]
                mine = [k for k, (g, x) in enumerate(a.ins) if x.val.shape == v.val.shape and v.exact]
                if mine and len(graphs) == 1 and src.bool(0.5):
                    # a second copy of the same module, through an equal description
                    g2 = graphgen.copy(graphs[0])
                    graphs.append(g2)
                    b = Part(a.h, [(g2, x) for x in g2.inputs], [(g2, x) for x in g2.outputs], a.n)
                    j = src.choice(mine)
                    desc.append("itself")
                else:
                    b = part([(v.val, v.bound, v.exact)])
                    j = next(k for k, (g, x) in enumerate(b.ins) if getattr(x, "alias", None) == 0)
                front, tail = a, b
            v = front.outs[i][1]
            if src.bool(0.15):
                bi, bj = src.choice([(len(front.outs), j), (i, len(tail.ins)), (i, len(tail.ins) + 7), (2 ** 31 - 1, j), (-1, j), (i, -1)])
                ok = (bi == -1 and len(front.outs) == 1) or (bj == -1 and len(tail.ins) == 1)
                h = t.Module_Fusion(front.h, bi, tail.h, bj)
                if ok and not h:
                    raise Violation(f"fusion with slots {bi},{bj} failed: {t.err()}")
                if not ok and h:
                    raise Violation(f"fusion of {len(front.outs)} outputs and {len(tail.ins)} inputs accepted the slots {bi},{bj}")
                if ok:
                    t.free_Module(h)
                desc.append(f"bad {bi},{bj}")
            h = t.Module_Fusion(front.h, i, tail.h, j)
            if not h:
                raise Violation(f"fusion {i}->{j} failed: {t.err()} of {desc}")
            handles.append(h)
            desc.append(f"{i}->{j}")
            links[id(tail.ins[j][1])] = front.outs[i]
            outs = [o for o in front.outs if o[1] is not v or o[0] is not front.outs[i][0]] + tail.outs
            ins = front.ins + [x for k, x in enumerate(tail.ins) if k != j]
            if src.bool(0.3):
                # the parts are not needed any more
                for y in {front.h, tail.h}:
                    t.free_Module(y)
                    handles.remove(y)
            a = Part(h, ins, outs, front.n + tail.n)
        if len(graphs) < 2:
            raise Discard
        m = a.h
        if src.bool(0.3):
            m = t.module(env.mod.save(a.h))
            handles.append(m)
            desc.append("saved")
        wb = t.bench(m, src.choice([None, None, "--no-pack", "--filter"]))
        try:
            if t.Workbench_input_count(wb) != len(a.ins) or t.Workbench_output_count(wb) != len(a.outs):
                raise Violation(f"{t.Workbench_input_count(wb)} inputs and {t.Workbench_output_count(wb)} outputs, expected "
                                f"{len(a.ins)} and {len(a.outs)}: {desc}")
            for r in range(src.int(1, 2)):
                vals = {}
                for g in graphs:
                    xs = []
                    for v in g.inputs:
                        if id(v) in links:
                            lg, lv = links[id(v)]
                            xs.append(vals[id(lg)][id(lv)])
                        else:
                            xs.append(graphgen.data(src, v.val.shape))
                    g.eval(xs)
                    if any(y.dtype == np.float32 and y.size and not float(np.abs(y).max()) < 2 ** 22 for y in g.memo.values() if isinstance(y, np.ndarray)):
                        raise Discard
                    vals[id(g)] = dict(g.memo)
                for k, (g, v) in enumerate(a.ins):
                    t.set_input(wb, k, vals[id(g)][id(v)])
                t.run(wb)
                for k, (g, v) in enumerate(a.outs):
                    graphgen.check_out(t.output(wb, k), vals[id(g)][id(v)], v.exact, f"output {k} of {desc}")
                names = [v.node.name for g, v in a.outs]
                for k, (g, v) in enumerate(a.outs):
                    if names.count(names[k]) == 1 and src.bool(0.3):
                        graphgen.check_out(t.output(wb, names[k]), vals[id(g)][id(v)], v.exact, f"output {names[k]} of {desc}")
        finally:
            t.free_Workbench(wb)
    except ApiError as e:
        raise Violation(f"{e}: {desc}")
    finally:
        for h in handles:
            t.free_Module(h)
    return {"desc": "; ".join(desc), "nt": a.n >= 2, "labels": [f"{len(graphs)} modules"] + [x for x in ("saved", "itself") if x in desc]}


TARGETS = {"fuse": t_fuse}
