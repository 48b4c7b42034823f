"""The contract of custom operators registered through the C API."""
import ctypes as C
import os
import numpy as np
from tv import fmt, ops, api, graphgen
from tv.gen import Violation, Discard
from tv.api import ApiError

ID = "P26"
RULE = ("operators registered at run time (both registration functions and the C++ wrapper) used inside graphs with built-in operators; "
        "each object's life (new, init, run, free), the parameters it can read, the arguments it is given and the use of what it "
        "returns are compared with a reference, with injected failures (NULL objects, failing init, NULL results, thrown messages) at "
        "any call, clones, parameter changes, replaced registrations and answers of infer; non-trivial = a custom operator ran, or an "
        "infer answer with at least one field; distinct by case")
CASES = {"quick": 60000, "thorough": 250000}
SHIMS = ("plug",)
P = C.c_void_p
NEW, FREE = C.CFUNCTYPE(P), C.CFUNCTYPE(None, P)
INIT, INITEX = C.CFUNCTYPE(None, P, P, P), C.CFUNCTYPE(C.c_int32, P, P, P)
RUN = C.CFUNCTYPE(P, P, C.c_int32, C.POINTER(P), P)
F = np.float32


class Journal:
    """what the python side of the operators saw"""

    def __init__(self):
        self.reset()

    def reset(self):
        self.n, self.live, self.bad, self.calls = 0, {}, [], 0
        self.fail, self.how, self.msg = None, None, b""     # fail: run call number to fail
        self.init_fail = self.new_fail = None
        self.names, self.inits, self.runs = [], [], []
        self.answer = None


J = Journal()


def make(t):
    """the callbacks; kept alive by the environment"""
    def new():
        J.n += 1
        if J.new_fail == J.n:
            if J.how == "msg":
                t.set_error_message(J.msg)
            return None
        J.live[J.n] = {"inits": 0, "params": None}
        return J.n

    def free(o):
        if o not in J.live:
            J.bad.append(f"free of {o}")
        J.live.pop(o, None)

    def init(o, d, c):
        if o not in J.live or not c:
            J.bad.append(f"init of {o}, context {c}")
            return 0
        ps = {}
        for k in J.names:
            h = t.OperatorParams_get(d, k.encode())
            if h:
                ps[k] = t.get(h)
                t.free_Tensor(h)
        J.live[o]["params"] = ps
        J.live[o]["inits"] += 1
        J.inits.append((o, ps))
        if J.init_fail == len(J.inits):
            if J.how == "msg":
                t.set_error_message(J.msg)
            return 0
        return 1

    def run(kind):
        def f(o, n, argv, c):
            if o not in J.live or not J.live[o]["inits"] or not c:
                J.bad.append(f"run of {o}: {J.live.get(o)}, context {c}")
                return None
            ps = J.live[o]["params"]
            args = [t.get(argv[i]) for i in range(n)]
            J.runs.append((ps, args))
            if J.fail == len(J.runs):
                if J.how == "msg":
                    t.set_error_message(J.msg)
                return None
            s = float(ps["scale"][0].np()) if "scale" in ps else 1.0
            y = sum(a[0].np().astype(F) * F(i + 1) for i, a in enumerate(args)) * F(s)
            if kind == "sum":
                return make_out(y)
            if kind == "pack":
                hs = [make_out(y), t.Tensor_clone(argv[0]), t.new(np.asarray(y.shape, np.int32))]
                h = t.Tensor_pack(C.cast((P * 3)(*hs), P), 3)
                for x in hs:
                    t.free_Tensor(x)
                return h
            if kind == "same":
                return t.Tensor_cast(argv[0], fmt.FLOAT32)
            return t.Tensor_clone(argv[0])

        def make_out(y):
            y = np.ascontiguousarray(y, F)
            h = t.new_Tensor_in_flow(0, C.cast((api.I32 * 8)(*y.shape), P), y.ndim, fmt.FLOAT32, None)
            C.memmove(t.Tensor_data(h), y.tobytes(), y.nbytes)
            return h
        return f

    def infer(o, n, argv, c):
        if o not in J.live:
            J.bad.append(f"infer of {o}")
        if J.answer is None:
            return None
        return t.new(np.asarray(J.answer, np.int32))
    return {"new": NEW(new), "free": FREE(free), "init": INIT(lambda o, d, c: init(o, d, c) and None), "init_ex": INITEX(init),
            "infer": RUN(infer), **{k: RUN(run(k)) for k in ("sum", "pack", "same", "clone")}}


def setup(libs):
    env = ops.Env(libs)
    t = env.t
    d = env.plug = C.CDLL(libs["plug"])
    d.tv_err.restype = C.c_char_p
    d.tv_plug_throw.argtypes = [C.c_int, C.c_char_p]
    d.tv_op_infer.argtypes = [C.c_char_p, P, C.c_int, P, C.c_int]
    for k, s in {"ts_plugin_get_creator_map": (P,), "ts_plugin_flush_creator": (None, P), "ts_plugin_free_creator_map": (None, P)}.items():
        f = getattr(t.dll, k)
        f.restype, f.argtypes = s[0], list(s[1:])
        setattr(t, k[3:], f)
    env.cb = make(t)
    d.tv_plug_register()
    env.base = t.plugin_get_creator_map()
    return env


def addr(f):
    return C.cast(f, P)


def register(env, name, run, ex, infer=None, init=None):
    cb = env.cb
    r = env.t.Operator_RegisterEx if ex else env.t.Operator_Register
    r(b"cpu", name.encode(), addr(cb["new"]), addr(cb["free"]), addr(init or cb["init_ex" if ex else "init"]),
      addr(infer) if infer else None, addr(run if not isinstance(run, str) else cb[run]))


KINDS = {"sum": "tv_sum", "pack": "tv_pack", "same": "tv_same", "clone": "tv_clone"}


def t_graph(src, env):
    t, d = env.t, env.plug
    J.reset()
    ex = {k: src.bool() for k in KINDS}
    for k, n in KINDS.items():
        register(env, n, k, ex[k])
    shape = src.shape(src.int(1, 3), hi=4)
    nin = src.int(1, 3)
    nodes = [fmt.param(f"x{i}") for i in range(nin)]
    refs = [lambda xs, i=i: xs[i] for i in range(nin)]
    plug = []           # (node, kind, arguments, params)
    desc = []
    params_pool = ["scale", "p1", "two words", "\u4f60", "k" * 30, "#name", "#op", "none"]
    for i in range(src.int(1, 7)):
        k = src.weighted([(3, "sum"), (2, "pack"), (1, "same"), (1, "clone"), (2, "add"), (1, "abs"), (1, "sub"), (2, "cpp")])
        pick = lambda: src.choice(range(max(0, len(nodes) - 4), len(nodes))) if src.bool(0.7) else src.raw(len(nodes))
        if k in ("add", "sub"):
            a, b = pick(), pick()
            nodes.append(fmt.Node(k, [nodes[a], nodes[b]], f"n{i}", {}))
            refs.append((lambda xs, a=refs[a], b=refs[b]: a(xs) + b(xs)) if k == "add" else (lambda xs, a=refs[a], b=refs[b]: a(xs) - b(xs)))
            desc.append(f"n{i}={k}")
            continue
        if k == "abs":
            a = pick()
            nodes.append(fmt.Node(k, [nodes[a]], f"n{i}", {}))
            refs.append(lambda xs, a=refs[a]: np.abs(a(xs)))
            desc.append(f"n{i}=abs")
            continue
        args = [pick() for _ in range(src.int(1, 3) if k in ("sum", "pack", "cpp") else 1)]
        ps = {}
        sc = F(src.choice([1, 2, -1, 0]))
        if k == "cpp" or src.bool(0.6):
            ps["scale"] = sc
        if k != "cpp":
            for q in src.subset(params_pool[1:5], 0.3):
                ps[q] = src.choice([np.int32(7), np.asarray([1, 2], np.int64), np.zeros((2, 0), F), b"text",
                                    [np.int32(1), np.ones(2, F)]]) if src.bool(0.5) else src.farray(src.shape(2, hi=3))
        name = f"n{i}"
        node = fmt.Node("tv_affine" if k == "cpp" else KINDS[k], [nodes[a] for a in args], name, ps)
        ar = [refs[a] for a in args]
        if k == "cpp":
            f = lambda xs, ar=ar, s=sc: sum(a(xs) for a in ar) * s
        elif k in ("sum", "pack"):
            f = lambda xs, ar=ar, ps=ps: (sum(a(xs) * F(j + 1) for j, a in enumerate(ar)) * F(ps.get("scale", 1))).astype(F)
        else:
            f = ar[0]
        if k != "cpp":
            plug.append((node, k, ar, ps))
        desc.append(f"n{i}={node.op}({','.join(nodes[a].name for a in args)}){sorted(ps)}")
        if k in ("pack", "cpp"):
            fld = src.int(0, 1)
            node = fmt.Node("_field", [node], f"f{i}", {"offset": np.int32(fld)})
            f = f if fld == 0 else ar[0]
        nodes.append(node)
        refs.append(f)
    outs = [len(nodes) - 1] + ([src.raw(len(nodes))] if src.bool(0.4) else [])
    reach, st = set(), [nodes[o] for o in outs]
    while st:
        n = st.pop()
        if id(n) not in reach:
            reach.add(id(n))
            st += n.inputs
    mine = [p for p in plug if id(p[0]) in reach]
    cpp = sum(1 for n in reach_nodes(nodes, reach) if n.op == "tv_affine")
    J.names = params_pool
    msg = src.choice([b"it broke", "\u574f".encode(), b"m" * 200])
    J.msg, J.how = msg, src.choice(["msg", "none"])
    m = t.module(fmt.enc_module(nodes[:nin], [nodes[o] for o in outs]))
    wbs = []
    desc.append("->" + ",".join(nodes[o].name for o in outs))

    def bad():
        if J.bad:
            raise Violation(f"{J.bad[:4]} in {desc}")

    def fail(h, what, with_msg):
        e = t.err()
        if h:
            raise Violation(f"{what} succeeded in {desc}")
        if not e or (with_msg and msg.decode("latin1") not in e):
            raise Violation(f"{what} gives the message {e!r}, not {msg!r}, in {desc}")
    try:
        if mine and src.bool(0.2):
            # loading fails as one of the operators does
            k = src.choice(["new"] + (["init"] if any(ex[p[1]] for p in mine) else []))
            if k == "new":
                J.new_fail = src.int(1, len(mine))
            else:
                # only the extended registration can report
                J.init_fail = next_ex(src, mine, ex)
            if J.init_fail is not None or k == "new":
                fail(t.Workbench_Load(m, t.cpup), f"load with a failing {k}", J.how == "msg") if k == "new" else None
                if k == "init":
                    # which init call comes first is not specified: any failing call of an extended operator must be seen
                    h = t.Workbench_Load(m, t.cpup)
                    if all(ex[p[1]] for p in mine):
                        fail(h, "load with a failing init", J.how == "msg")
                    elif h:
                        t.free_Workbench(h)
                bad()
                if J.live:
                    raise Violation(f"objects {sorted(J.live)} of a failed load were not freed: {desc}")
                desc.append(f"failing {k}")
            J.new_fail = J.init_fail = None
            J.n, J.inits = 0, []
        opt = src.choice([None, "--no-pack"])
        wbs.append(t.bench(m, opt))
        bad()
        if len(J.live) != len(mine) or any(o["inits"] != 1 for o in J.live.values()):
            raise Violation(f"{len(J.live)} objects, inits {[o['inits'] for o in J.live.values()]}, for {len(mine)} nodes of {desc}")
        want = sorted(repr(ps_repr(p)) for p in mine)
        got = sorted(repr({k: v for k, v in o["params"].items()}) for o in J.live.values())
        if want != got:
            raise Violation(f"parameters {got}, expected {want} in {desc}")
        ran = False
        over = {wbs[0]: {}}         # parameters changed later
        orig = {id(p): p[3].get("scale") for p in mine}

        def apply(wb):
            for p in mine:
                v = over[wb].get(id(p), orig[id(p)])
                if v is None:
                    p[3].pop("scale", None)
                else:
                    p[3]["scale"] = v
        for _ in range(src.int(1, 4)):
            a = src.weighted([(4, "run"), (2, "fail"), (1, "clone"), (1, "free"), (1, "param")])
            wb = src.choice(wbs)
            if a == "clone" and len(wbs) < 3:
                h = t.Workbench_clone(wb)
                if not h:
                    raise Violation(f"clone failed: {t.err()} of {desc}")
                wbs.append(h)
                over[h] = dict(over[wb])
                desc.append("clone")
                if len(J.live) != len(mine) * len(wbs) or any(o["inits"] < 1 for o in J.live.values()):
                    raise Violation(f"{len(J.live)} objects of {len(wbs)} workbenches for {len(mine)} nodes of {desc}")
                continue
            if a == "param" and mine:
                p = src.choice(mine)
                v = F(src.int(-3, 3))
                h = t.new(v)
                ok = t.Workbench_set_operator_param(wb, p[0].name.encode(), b"scale", h)
                t.free_Tensor(h)
                if not ok:
                    raise Violation(f"setting scale of {p[0].name}: {t.err()} in {desc}")
                over[wb][id(p)] = v
                desc.append("set param")
                continue
            if a == "free" and len(wbs) > 1:
                wbs.remove(wb)
                t.free_Workbench(wb)
                desc.append("free")
                bad()
                if len(J.live) != len(mine) * len(wbs):
                    raise Violation(f"{len(J.live)} objects live, {len(mine)} nodes, {len(wbs)} workbenches: {desc}")
                continue
            xs = [src.iarray(shape, np.int32, -5, 5).astype(F) for _ in range(nin)]
            apply(wb)
            vals = [np.asarray(r(xs), F) for r in refs]
            if max(np.abs(v).max() for v in vals) >= 2 ** 22:
                raise Discard
            for i, x in enumerate(xs):
                t.set_input(wb, i, x)
            J.runs = []
            if a == "fail" and (mine or cpp):
                if mine and (not cpp or src.bool()):
                    J.fail = src.int(1, len(mine))
                    r = t.Workbench_run(wb)
                    fail(r, f"run whose {J.fail}. call fails", J.how == "msg")
                    if len(J.runs) != J.fail:
                        raise Violation(f"{len(J.runs)} calls in a run whose {J.fail}. failed: {desc}")
                else:
                    d.tv_plug_throw(src.raw(cpp), msg)
                    r = t.Workbench_run(wb)
                    fail(r, "run with a thrown message", True)
                J.fail = None
                desc.append("failed run")
                continue
            t.run(wb)
            ran = True
            bad()
            for k, o in enumerate(outs):
                ops.check(t.output(wb, k)[0], vals[o], 0, 0, f"output {k} of {desc}")
            want = sorted(repr((ps_repr(p), [np.asarray(a(xs), F).tobytes() for a in p[2]])) for p in mine)
            got = sorted(repr((ps, [x[0].data for x in args])) for ps, args in J.runs)
            if want != got:
                raise Violation(f"the calls of a run were {got}, expected {want} in {desc}"[:1500])
            desc.append("run")
        while wbs:
            t.free_Workbench(wbs.pop())
        bad()
        if J.live or d.tv_plug_live():
            raise Violation(f"objects {sorted(J.live)} and {d.tv_plug_live()} of the wrapper were not freed: {desc}")
    except ApiError as e:
        raise Violation(f"{e} in {desc}")
    finally:
        d.tv_plug_throw(-1, b"")
        for w in wbs:
            t.free_Workbench(w)
        t.free_Module(m)
        t.plugin_flush_creator(env.base)
    return {"desc": " ".join(desc), "nt": bool((mine or cpp) and ran), "labels": [x for x in desc if " " in x and "=" not in x] + [p[1] for p in mine]}


def reach_nodes(nodes, reach):
    seen, out = set(), []
    st = list(nodes)
    while st:
        n = st.pop()
        if id(n) in seen:
            continue
        seen.add(id(n))
        if id(n) in reach:
            out.append(n)
        st += n.inputs
    return out


def next_ex(src, mine, ex):
    return src.int(1, len(mine))


def ps_repr(p):
    """the parameters the operator can read, as the tensors of the node"""
    node, k, ar, ps = p
    d = {}
    for q in J.names:
        if q in ps:
            v = ps[q]
            d[q] = [fmt.t(x) for x in v] if isinstance(v, list) else [fmt.t(v)]
        elif q == "#name":
            d[q] = [fmt.t(node.name.encode())]
        elif q == "#op":
            d[q] = [fmt.t(node.op.encode())]
    return d


def t_infer(src, env):
    """answers of infer, well formed and not"""
    t, d = env.t, env.plug
    J.reset()
    xs = [src.iarray(src.shape(src.int(1, 3), hi=4), np.int32, -5, 5).astype(F)]
    hs = [t.new(x) for x in xs]
    out = (api.I32 * 400)()
    call = lambda op: d.tv_op_infer(op, C.cast((P * len(hs))(*hs), P), len(hs), C.cast(out, P), 400)
    k = src.weighted([(6, "good"), (4, "bad"), (1, "run"), (1, "null"), (1, "wrapper"), (1, "new")])
    try:
        protos = [(src.choice([2, 3, 7, 8, 10, 11]), [src.int(0, 6) for _ in range(src.int(0, 5))]) for _ in range(src.int(1, 5))]
        J.answer = [len(protos)] + [v for dt, s in protos for v in [dt, len(s)] + s]
        if k == "wrapper":
            protos = [(fmt.FLOAT32, list(xs[0].shape))] * 2
        elif k == "run":
            protos = [(fmt.FLOAT32, list(xs[0].shape)), (fmt.FLOAT32, list(xs[0].shape)), (fmt.INT32, [xs[0].ndim])]
        elif k == "null":
            J.answer = None
        elif k == "new":
            J.new_fail = 1
        elif k == "bad":
            m = src.choice(["cut", "count", "dims", "empty", "neg"])
            if m == "cut":
                J.answer = J.answer[:src.int(1, len(J.answer) - 1)]
            elif m == "count":
                J.answer[0] = len(protos) + src.choice([1, 2, 50, 2 ** 31 - 1 - len(protos), -len(protos), -len(protos) - 1])
            elif m == "dims":
                J.answer[2] = src.choice([100, 8, 2 ** 31 - 1, 50])
            elif m == "neg":
                J.answer[2] = src.choice([-1, -2, -2 ** 31])
            else:
                J.answer = []
        ex = src.bool()
        register(env, "tv_inf", "pack", ex, None if k == "run" else env.cb["infer"])
        r = call(b"tv_affine" if k == "wrapper" else b"tv_inf")
        what = f"infer {k} {J.answer}"
        if J.bad:
            raise Violation(f"{J.bad} after {what}")
        if J.live:
            raise Violation(f"objects {J.live} not freed after {what}")
        if k in ("bad", "null", "new"):
            if r >= 0:
                raise Violation(f"{what} was accepted as {list(out[:r])}")
        else:
            want = [len(protos)] + [v for dt, s in protos for v in [dt, len(s)] + list(s)]
            if r < 0:
                raise Violation(f"{what} failed: {d.tv_err().decode()}")
            if list(out[:r]) != want:
                raise Violation(f"{what} gives {list(out[:r])}, expected {want}")
    finally:
        for h in hs:
            t.free_Tensor(h)
        t.plugin_flush_creator(env.base)
    return {"desc": what, "nt": True, "labels": [k]}


def t_registry(src, env):
    """registrations replace each other, snapshots are restored, programs keep the operators they were compiled with"""
    t = env.t
    J.reset()
    names = ["tv_r1", "tv_r2", "abs", "sub"]
    BUILT = {"abs": "abs", "sub": "sub"}
    cur = dict(BUILT)               # name -> what it does
    snaps, benches, log = [], [], []
    x = [src.iarray((3,), np.int32, -5, 5).astype(F) for _ in range(2)]
    FN = {"abs": lambda: np.abs(x[0]), "sub": lambda: x[0] - x[1], "sum": lambda: x[0] + F(2) * x[1], "clone": lambda: x[0]}

    def want(k, n):
        if k == "sum" and n == 1:
            return x[0]
        return FN[k]()
    try:
        for _ in range(src.int(3, 12)):
            a = src.weighted([(4, "reg"), (4, "load"), (3, "run"), (2, "snap"), (2, "flush"), (1, "null")])
            if a == "reg":
                n, k = src.choice(names), src.choice(["sum", "clone"])
                register(env, n, k, src.bool())
                cur[n] = k
                log.append(f"{n}:={k}")
            elif a == "null":
                n = src.choice(names)
                cb = [addr(env.cb[k]) for k in ("new", "free", "init")] + [None, addr(env.cb["sum"])]
                cb[src.choice([0, 1, 2, 4])] = None
                t.Operator_Register(b"cpu", n.encode(), *cb)
                log.append(f"{n}:=incomplete")
            elif a == "load":
                n = src.choice(names)
                k = 2 if n in ("tv_r2", "sub") else 1
                ps = [fmt.param(f"x{i}") for i in range(k)]
                m = t.module(fmt.enc_module(ps, [fmt.Node(n, ps, "y", {})]))
                h = t.Workbench_Load(m, t.cpup)
                t.free_Module(m)
                log.append(f"load {n}")
                if bool(h) != (n in cur):
                    raise Violation(f"loading {n} gives {h} {t.err()!r}, registered {cur} after {log}")
                if h:
                    benches.append((h, cur[n], k))
            elif a == "run" and benches:
                h, k, n = src.choice(benches)
                for i in range(n):
                    t.set_input(h, i, x[i])
                t.run(h)
                ops.check(t.output(h, 0)[0], want(k, n), 0, 0, f"a workbench made for {k} after {log}")
                log.append("run")
            elif a == "snap" and len(snaps) < 3:
                snaps.append((t.plugin_get_creator_map(), dict(cur)))
                log.append("snapshot")
            elif a == "flush" and snaps:
                s = src.choice(snaps)
                t.plugin_flush_creator(s[0])
                cur = dict(s[1])
                log.append(f"restore {snaps.index(s)}")
                if src.bool(0.3):
                    snaps.remove(s)
                    t.plugin_free_creator_map(s[0])
        if J.bad:
            raise Violation(f"{J.bad} after {log}")
    except ApiError as e:
        raise Violation(f"{e} after {log}")
    finally:
        for h, _, _ in benches:
            t.free_Workbench(h)
        for s, _ in snaps:
            t.plugin_free_creator_map(s)
        t.plugin_flush_creator(env.base)
    if J.live:
        raise Violation(f"objects {J.live} not freed after {log}")
    return {"desc": "; ".join(log), "nt": "run" in log and any(":=" in s for s in log), "labels": []}


TARGETS = {"graph": t_graph, "infer": t_infer, "registry": t_registry}
WEIGHTS = {"graph": 5, "infer": 2, "registry": 2}
