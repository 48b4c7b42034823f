"""Memory: safe, reused, bounded, released, reported, and free to travel between threads."""
import ctypes as C
import gc
import json
import re
import numpy as np
from tv import fmt, ops, api, graphgen, shim
from tv.gen import Src, Violation, Discard
from tv.api import ApiError
from props import P06, P19, P23, P27

ID = "P24"
RULE = ("histories of 5-80 allocations, copies, releases and controller ends over up to 3 memory controllers (dynamic, flow, synchronised, cloned), sizes 0 to 200 kB, every "
        "block filled and looked at again; sizes of hard memory changed up and down; histories of the checks of workbenches (P06), filters (P19), tensor handles (P23) and "
        "fusion (P27), failing calls included, repeated up to 12 times with live tensor blocks and C++ objects counted; random graphs run 40 times with the memory of the workbench followed and its "
        "summary read; outputs read and freed in 1 to 3 other threads while the workbench goes on; non-trivial = at least 3 live blocks at once, or "
        "a repeated history with at least one run, or at least 2 elements; distinct by the whole case")
CASES = {"quick": 2400, "thorough": 150000}
VARIANTS = ("rel", "asan", "tsan")
SHIMS = ("mem", "mod", "count")
CASE_TIMEOUT = 60
I64 = C.c_int64


def load(libs, fill):
    d = C.CDLL(libs["mem"])
    P = C.c_void_p
    for n, r, a in [("mm_err", C.c_char_p, []), ("mm_install", None, [C.c_int]), ("mm_bytes", I64, []), ("mm_blocks", I64, []), ("mm_calls", I64, []), ("mm_wrong", I64, []),
                    ("mm_size_of", I64, [P]), ("mm_arm", None, [I64, I64, I64]), ("mm_fired", I64, []), ("mm_size_string", C.c_char_p, [C.c_uint64]),
                    ("mc_new", P, [C.c_int]), ("mc_del", None, [P]), ("mc_clone", P, [P]), ("mc_alloc", P, [P, I64]), ("mm_data", P, [P]), ("mm_size", I64, [P]),
                    ("mm_copy", P, [P]), ("mm_free", None, [P]), ("mc_summary", I64, [P]), ("mc_summary_s", C.c_char_p, [P]),
                    ("hm_new", P, [I64]), ("hm_op", C.c_int, [P, C.c_int, I64]), ("hm_data", P, [P]), ("hm_cap", I64, [P]), ("hm_del", None, [P]),
                    ("mm_cross", C.c_int, [P, C.c_int, C.c_int, C.c_int, P, P, C.c_int])]:
        f = getattr(d, n)
        f.restype, f.argtypes = r, a
    d.mm_install(fill)
    return d


def setup(libs):
    # allocated memory is filled with a pattern that is no sensible value, so that reading what nobody wrote shows
    mm = load(libs, 0xA5)
    env = ops.Env(libs)
    env.mm = mm
    env.mod = shim.Mod(libs["mod"])
    t = env.t
    x = fmt.param("x")
    env.wb = t.bench(t.module(fmt.enc_module([x], [fmt.Node("abs", [x], "y")])))
    c = C.CDLL(None)
    env.count = None
    if hasattr(c, "cnt_blocks"):
        c.cnt_blocks.restype = c.cnt_bytes.restype = I64
        env.count = lambda: (c.cnt_blocks(), c.cnt_bytes())
    return env


def size_string(n):
    """as B, KB, MB, GB or TB with at most one digit after the point"""
    x, i = float(n), 0
    while x >= 1024 and i < 4:
        x /= 1024
        i += 1
    return x, i


def reads_as(text, n, what):
    m = re.fullmatch(r"(\d+(?:\.\d)?)(B|KB|MB|GB|TB)", text)
    if not m or abs(float(m[1]) * 1024 ** ["B", "KB", "MB", "GB", "TB"].index(m[2]) - n) > 0.0501 * 1024 ** ["B", "KB", "MB", "GB", "TB"].index(m[2]):
        raise Violation(f"{what}: {n} bytes are reported as {text!r}")


def t_ctrl(src, env):
    mm = env.mm
    calls0, bytes0, blocks0 = mm.mm_calls(), mm.mm_bytes(), mm.mm_blocks()
    big = src.choice([64, 3000, 200000])
    sizes = [src.int(1, big) for _ in range(src.int(1, 6))]
    ctls, live, log = [], [], []
    peak = {}        # of live blocks, per controller
    pool = {}        # base blocks of a controller: pointer -> size
    kinds = {}
    top = 0
    uid = 0

    def bad(m):
        raise Violation(f"{' '.join(log)[-500:]}: {m}")

    def pattern(b):
        return bytes([(b["id"] * 37 + 11) & 255]) * b["n"]

    def look(b):
        if b["n"]:
            p = mm.mm_data(b["h"])
            if p != b["p"]:
                bad(f"block {b['id']} moved")
            if C.string_at(p, b["n"]) != pattern(b):
                bad(f"the contents of block {b['id']} of {b['n']} bytes changed while it was in use")

    def ctl():
        nonlocal uid
        uid += 1
        k = src.int(0, 3)
        h = mm.mc_new(k)
        if not h:
            bad(f"no controller: {mm.mm_err()}")
        ctls.append({"h": h, "k": k, "id": uid})
        peak[uid], pool[uid], kinds[uid] = 0, {}, k
        log.append(f"c{uid}=new({k})")

    try:
        ctl()
        for _ in range(src.int(5, 80)):
            a = src.weighted([(12, "alloc"), (8, "free"), (2, "copy"), (1, "new"), (1, "clone"), (1, "end"), (2, "sum")])
            if a == "alloc" and ctls:
                c = src.choice(ctls)
                n = src.weighted([(6, src.choice(sizes)), (3, src.int(1, big)), (1, 0)])
                uid += 1
                log.append(f"b{uid}=c{c['id']}.alloc({n})")
                mine = {b["p"] for b in live if b["c"] == c["id"]}
                fits = c["k"] > 0 and n > 0 and any(s >= n for p, s in pool[c["id"]].items() if p not in mine)
                before, tot = mm.mm_calls(), mm.mm_bytes()
                h = mm.mc_alloc(c["h"], n)
                if not h:
                    bad(f"failed: {mm.mm_err()}")
                p = mm.mm_data(h)
                if mm.mm_size(h) != n or (n and not p):
                    bad(f"{mm.mm_size(h)} bytes at {p} instead of {n}")
                b = {"h": h, "p": p, "n": n, "c": c["id"], "id": uid, "refs": [h]}
                if n:
                    cap = mm.mm_size_of(p)
                    if cap < n:
                        bad(f"block of {n} bytes lies in one of {cap}")
                    for o in live:
                        if o["n"] and o["p"] < p + n and p < o["p"] + o["n"]:
                            bad(f"blocks {b['id']} and {o['id']} overlap")
                    if fits and mm.mm_calls() != before:
                        bad("new memory was taken from the system although a large enough free block was there")
                    C.memset(p, pattern(b)[0], n)
                    if c["k"]:
                        q = pool[c["id"]]
                        q[p] = cap
                        for x in [x for x in q if mm.mm_size_of(x) < 0]:
                            del q[x]
                live.append(b)
                peak[c["id"]] = max(peak[c["id"]], sum(1 for o in live if o["c"] == c["id"] and o["n"]))
                if c["k"] and len(pool[c["id"]]) > peak[c["id"]]:
                    bad(f"{len(pool[c['id']])} blocks are held, never more than {peak[c['id']]} were in use")
                top = max(top, len([o for o in live if o["n"]]))
            elif a == "copy" and live:
                b = src.choice(live)
                b["refs"].append(mm.mm_copy(b["h"]))
                log.append(f"copy(b{b['id']})")
            elif a == "free" and live:
                b = src.choice(live)
                look(b)
                i = src.raw(len(b["refs"]))
                h = b["refs"].pop(i)
                mm.mm_free(h)
                log.append(f"free(b{b['id']})")
                if b["refs"]:
                    b["h"] = b["refs"][0]
                    look(b)
                else:
                    live.remove(b)
            elif a == "new" and len(ctls) < 3:
                ctl()
            elif a == "clone" and len(ctls) < 3 and ctls:
                c = src.choice(ctls)
                h = mm.mc_clone(c["h"])
                if (h is not None) != (c["k"] >= 2):
                    bad("clone")
                if h:
                    uid += 1
                    ctls.append({"h": h, "k": c["k"], "id": uid})
                    peak[uid], pool[uid], kinds[uid] = 0, {}, c["k"]
                    log.append(f"c{uid}=clone(c{c['id']})")
            elif a == "end" and ctls:
                c = ctls.pop(src.raw(len(ctls)))
                mm.mc_del(c["h"])
                log.append(f"end(c{c['id']})")
            elif a == "sum" and ctls:
                c = src.choice(ctls)
                want = sum(pool[c["id"]].values())
                if c["k"] < 2:
                    got = mm.mc_summary(c["h"])
                    if got != want:
                        bad(f"summary {got}, held are {want} bytes")
                else:
                    s = json.loads(mm.mc_summary_s(c["h"]))
                    if list(s) not in (["cpu:0"], ["cpu"]):
                        bad(f"summary {s}")
                    reads_as(list(s.values())[0], want, "summary")
            held = sum(b["n"] for b in live)
            if mm.mm_bytes() - bytes0 < held:
                bad(f"{held} bytes are in use and {mm.mm_bytes() - bytes0} taken")
            # a pool holds its blocks, an ended controller only those in use
            # (a synchronised one stays until its last block is freed, as that may still ask for memory on another device)
            opened = {c["id"] for c in ctls if c["k"]} | {b["c"] for b in live if kinds[b["c"]] > 1}
            want = sum(sum(pool[i].values()) for i in opened) + sum(mm.mm_size_of(b["p"]) for b in live if b["n"] and b["c"] not in opened)
            if mm.mm_bytes() - bytes0 != want:
                bad(f"{mm.mm_bytes() - bytes0} bytes are taken, {want} are in use or in the pool of a controller")
        for b in live:
            look(b)
        while ctls:
            c = ctls.pop()
            mm.mc_del(c["h"])
        for b in live:
            look(b)
    finally:
        while ctls:
            mm.mc_del(ctls.pop()["h"])
        for b in live:
            for h in b["refs"]:
                mm.mm_free(h)
    if mm.mm_bytes() != bytes0 or mm.mm_blocks() != blocks0 or mm.mm_wrong():
        bad(f"after all was freed {mm.mm_blocks() - blocks0} blocks of {mm.mm_bytes() - bytes0} bytes are left, {mm.mm_wrong()} were freed that were not allocated")
    return {"desc": f"{' '.join(log)[:400]} #{len(log)}", "nt": top >= 3, "labels": []}


def t_hard(src, env):
    mm = env.mm
    bytes0, blocks0 = mm.mm_bytes(), mm.mm_blocks()
    n = src.int(0, 3000)
    log = [f"new({n})"]
    h = mm.hm_new(n)
    cap, data = n, b""

    def bad(m):
        raise Violation(f"hard memory {' '.join(log)}: {m}")

    def write(k):
        p = mm.hm_data(h)
        d = bytes((k * 31 + i * 7) & 255 for i in range(cap))
        if cap:
            C.memmove(p, d, cap)
        return d
    try:
        if not h:
            bad(mm.mm_err())
        data = write(0)
        for k in range(src.int(1, 8)):
            op, m = src.int(0, 5), src.weighted([(3, src.int(0, 3000)), (1, cap), (1, 0)])
            log.append(["expect", "shrink", "resize", "dispose", "move", "swap"][op] + (f"({m})" if op in (0, 1, 2, 5) else "()"))
            if mm.hm_op(h, op, m) != 0:
                bad(f"failed: {mm.mm_err()}")
            if op == 0 and m > cap or op == 1 and m < cap:
                data, cap = data[:m], m          # what was there stays, up to the new size
            elif op in (2, 5) and (m != cap or op == 5):
                data, cap = b"", m
            elif op == 3:
                data, cap = b"", 0
            if mm.hm_cap(h) != cap:
                bad(f"capacity {mm.hm_cap(h)}, expected {cap}")
            if bool(mm.hm_data(h)) != bool(cap):
                bad(f"data {mm.hm_data(h)} for a capacity of {cap}")
            if cap and mm.mm_size_of(mm.hm_data(h)) < cap:
                bad("fewer bytes than the capacity")
            if data and C.string_at(mm.hm_data(h), len(data)) != data:
                bad("the contents changed")
            data = write(k + 1)
    finally:
        if h:
            mm.hm_del(h)
    if mm.mm_bytes() != bytes0 or mm.mm_blocks() != blocks0 or mm.mm_wrong():
        bad("memory is left or was freed twice")
    return {"desc": " ".join(log), "nt": len(log) > 2, "labels": []}


def repeat(f, name):
    def target(src, env):
        mm = env.mm
        s = len(src.rec)
        info = f(src, env)
        choices = src.rec[s:]

        def again():
            f(Src(choices=list(choices)), env)

        again()
        at = []
        for _ in range(12):
            again()
            gc.collect()
            at.append((mm.mm_bytes(), mm.mm_blocks()) + (env.count() if env.count else ()))
            if len(at) > 2 and at[-1] == at[-2] == at[-3]:
                break
        if mm.mm_wrong():
            raise Violation(f"memory was freed that is not allocated: {name} {info.get('desc')}")
        d = [[y - x for x, y in zip(p, q)] for p, q in zip(at[3:], at[4:])]
        for k, w in enumerate(("bytes of tensor memory", "blocks of tensor memory", "objects", "bytes of objects")):
            if len(d) >= 8 and all(x[k] > 0 for x in d):
                raise Violation(f"every time this history ends {[x[k] for x in d][:4]} more {w} stay allocated: {name} {info.get('desc')}")
        return {"desc": f"{name} {info.get('desc')}", "nt": info.get("nt", True), "labels": [name]}
    return target


def pipe(src, env):
    env.t.Workbench_setup_context(env.wb)
    return P19.t_pipe(src, env)


def t_run(src, env):
    t, mm = env.t, env.mm
    g = graphgen.gen(src, max_ops=src.choice([3, 6, 12]), heavy=src.bool(0.4), inexact=False, weird_outputs=src.bool(0.3))
    sets = [[v.val for v in g.inputs]]
    if g.inputs and src.bool(0.4):
        sets.append([graphgen.data(src, v.val.shape) for v in g.inputs])
    wants = [g.eval(xs) for xs in sets]
    threads = src.int(1, 4)
    bad_input = src.bool(0.3)
    b0, n0 = mm.mm_bytes(), mm.mm_blocks()
    m = t.module(g.encode())
    wb = None
    try:
        wb = t.bench(m)
        t.Workbench_set_computing_thread_number(wb, threads)
        keep = src.bool(0.3)
        kept = []
        at = []
        for r in range(40):
            xs, want = sets[r % len(sets)], wants[r % len(sets)]
            for i, x in enumerate(xs):
                t.set_input(wb, i, x)
            t.run(wb)
            if r in (0, 1, 20, 38, 39):
                for i, (v, w) in enumerate(zip(g.outputs, want)):
                    graphgen.check_out(t.output(wb, i), w, v.exact, f"run {r} output {i} of {g.describe()}")
            if bad_input and r % 7 == 3 and t.Workbench_input(wb, 99, None):
                raise Violation("a missing input slot was accepted")
            at.append((mm.mm_bytes(), mm.mm_blocks(), t.Workbench_summary(wb)))
        if at[39][:2] != at[39 - len(sets)][:2] and at[39][0] > at[29][0] > at[19][0]:
            raise Violation(f"the memory keeps growing, {[a[0] for a in at]} bytes after equal runs of {g.describe()}")
        s = json.loads(at[-1][2])
        if s.get("device") not in ("cpu", "cpu:0") or s.get("thread") != threads or sorted(s) != ["device", "memory", "shared", "thread"] or not isinstance(s["memory"], dict):
            raise Violation(f"summary {s} with {threads} threads")
        for v in [s["shared"]] + list(s["memory"].values()):
            if not re.fullmatch(r"\d+(\.\d)?(B|KB|MB|GB|TB)", v):
                raise Violation(f"summary {s}")
    finally:
        if wb:
            t.free_Workbench(wb)
        t.free_Module(m)
    gc.collect()
    return {"desc": f"{len(sets)} sets {threads} threads {g.describe()}", "nt": len(g.outputs) > 0, "labels": ["runs"]}


def t_report(src, env):
    n = src.weighted([(2, src.int(0, 3000)), (2, src.int(0, 1 << src.int(1, 45))), (1, 1024 ** src.int(0, 4) * src.int(1, 1023))])
    reads_as(env.mm.mm_size_string(n).decode(), n, "size")
    t = env.t
    # constants are reported as shared
    cs = [np.zeros(src.shape(src.int(0, 3), hi=30), src.choice([np.float32, np.int32, np.float64])) for _ in range(src.int(0, 3))]
    x = fmt.param("x")
    outs = [fmt.Node("abs", [x], "y")] + [fmt.Node("_copy", [fmt.const(c, f"c{i}")], f"d{i}") for i, c in enumerate(cs)]
    m = t.module(fmt.enc_module([x], outs))
    wb = t.bench(m)
    try:
        for r in range(src.int(0, 2)):
            t.set_input(wb, 0, np.ones((2, 3), np.float32))
            t.run(wb)
        s = json.loads(t.Workbench_summary(wb))
        tot = sum(c.nbytes for c in cs)
        got = re.fullmatch(r"(\d+(?:\.\d)?)(B|KB|MB)", s["shared"])
        lo = 0.95 * tot
        if not got or float(got[1]) * 1024 ** ["B", "KB", "MB"].index(got[2]) < lo:
            raise Violation(f"constants of {tot} bytes are reported as {s}")
    finally:
        t.free_Workbench(wb)
        t.free_Module(m)
    return {"desc": f"{n} {[c.shape for c in cs]}", "nt": n >= 1024 or len(cs) > 1, "labels": []}


def t_cross(src, env):
    t = env.t
    g = graphgen.gen(src, max_ops=src.choice([2, 4, 8]), heavy=src.bool(0.3), inexact=False, weird_outputs=src.bool(0.3))
    runs, thr, hold, par = src.int(5, 40), src.int(1, 3), src.int(0, 3), src.choice([1, 1, 2])
    what = f"{runs} runs, {thr} threads, {hold} held, {g.describe()}"
    m = t.module(g.encode())
    wb = t.bench(m)
    try:
        t.Workbench_set_computing_thread_number(wb, par)
        for i, v in enumerate(g.inputs):
            t.set_input(wb, i, v.val)
        t.run(wb)
        raws = []
        for i, v in enumerate(g.outputs):
            y = t.output(wb, i)
            graphgen.check_out(y, g.eval([v.val for v in g.inputs])[i], v.exact, f"output {i} of {what}")
            if len(y) != 1:
                raise Discard
            raws.append(y[0].data if isinstance(y[0].data, bytes) else bytes(y[0].data))
        n = len(raws)
        want = (C.c_char_p * max(1, n))(*raws)
        size = (I64 * max(1, n))(*[len(r) for r in raws])
        r = env.mm.mm_cross(wb, n, runs, thr, C.cast(want, C.c_void_p), C.cast(size, C.c_void_p), hold)
        if r:
            raise Violation(f"{what}: " + ("an output read in another thread has other values" if r == 1 else f"a call failed: {t.err()}"))
    finally:
        t.free_Workbench(wb)
        t.free_Module(m)
    return {"desc": what, "nt": n > 0 and sum(map(len, raws)) >= 8, "labels": [f"{thr} threads"]}


TARGETS = {"ctrl": t_ctrl, "hard": t_hard, "run": t_run, "report": t_report, "cross": t_cross,
           "hist": repeat(P06.t_hist, "hist"), "filter": repeat(pipe, "filter"), "handles": repeat(P23.t_handles, "handles"), "fuse": repeat(P27.t_fuse, "fuse")}
WEIGHTS = {"ctrl": 6, "hard": 4, "run": 3, "report": 2, "cross": 4, "hist": 3, "filter": 2, "handles": 3, "fuse": 1}
