"""Tasks handed to the thread pool run exactly once, joins wait for them, parallel loops cover their range."""
import ctypes as C
import numpy as np
from tv import ops
from tv.gen import Violation, Discard

ID = "P33"
RULE = ("pools of 0..6 threads, 1..4 submitting threads (with or without the pool as their context) each with up to 12 operations: tasks with and without a task "
        "after them, tasks held at a gate while the pool and its thread are asked whether they are busy, joins of the pool and of the thread a task was given to, "
        "parallel loops (function, range, macro; joined at once or by a sync later) over ranges of -50..400 elements, threads of their own; tasks that take no time, "
        "yield, spin or sleep; every start, end and return is stamped by one global counter; up to 30 rounds of 1..3 threads giving tasks to a small pool while up to 3 others join it; splits of ranges into bins; nested bindings of contexts on 1..4 threads; "
        "non-trivial = at least 2 tasks or loops on a pool of at least 2 threads, at least 2 bins, or at least 2 nested bindings; distinct by program")
CASES = {"quick": 14000, "thorough": 300000}
SHIMS = ("pool",)
VARIANTS = ("rel", "asan", "tsan")
SHRINK_S = 20
CASE_TIMEOUT = 20   # cases take milliseconds: one that takes longer is stuck


def setup(libs):
    env = ops.Env(libs)
    env.pool = C.CDLL(libs["pool"])
    env.pool.po_run.restype = C.c_int64
    env.pool.po_lsplit.argtypes = [C.c_uint64, C.c_uint64, C.c_uint64, C.c_void_p, C.c_int]
    return env


def ck(c, msg, sig):
    if not c:
        raise Violation(msg, sig=sig)


OPS = ["run", "run+after", "join", "busy", "gate", "thread.join", "parallel_run", "parallel_range", "sync", "spin", "thread", "macros"]


def pool(src, env):
    size = src.weighted([(3, src.int(0, 2)), (6, src.int(2, 6))])
    n = src.weighted([(4, 1), (3, 2), (2, 3), (1, 4)])
    prog, desc, allops = [size, n], [], []
    for k in range(n):
        bound = src.bool(0.7)
        m = src.int(1, 12)
        prog += [int(bound), m]
        dd = []
        for i in range(m):
            kind = src.weighted([(6, 0), (4, 1), (2, 2), (2, 3), (3, 4), (2, 5), (3, 6), (2, 7), (1, 8), (1, 9), (1, 10), (1, 11)])
            a = b = c = 0
            dur = src.weighted([(5, 0), (3, 1), (2, 2), (2, 3)])
            if kind in (0, 9):
                a = dur
            elif kind == 1:
                a, b = dur, src.int(0, 3)
            elif kind == 4:
                a, b, c = dur, src.int(0, 7), src.int(0, 4)
            elif kind in (6, 7):
                a = src.int(-50, 50)
                b = src.weighted([(4, src.int(0, 12)), (2, src.int(-3, 3)), (2, src.int(10, 400))])
                c = dur | (4 if src.bool(0.3) else 0)
            elif kind == 10:
                a, b, c = dur | (4 if src.bool() else 0), src.int(-5, 9), src.int(0, 3)
            elif kind == 11:
                a, b = src.int(-50, 50), src.int(0, 60)
            prog += [kind, a, b, c]
            dd.append("%s%s" % (OPS[kind], (a, b, c)))
            allops.append((k, kind, a, b, c, bound))
        desc.append("%s: %s" % ("bound" if bound else "unbound", " ".join(dd)))
    d = "pool of %d | %s" % (size, " | ".join(desc))
    pa = np.array(prog, np.int32)
    log = np.zeros(6 * len(allops) + 14 * len(allops) + 16, np.int64)
    tail = np.zeros(4, np.int64)
    nlog = env.pool.po_run(pa.ctypes.data_as(C.c_void_p), log.ctypes.data_as(C.c_void_p), tail.ctypes.data_as(C.c_void_p))
    A = len(allops)
    O = log[:6 * A].reshape(A, 6)
    T = log[6 * A:nlog].reshape(-1, 14)
    ck(tail[2] == size, "%s: size() is %d" % (d, tail[2]), "size")
    ck(tail[0] == 0, "%s: a new pool is busy" % d, "busy idle")
    ck(tail[1] == 0, "%s: the pool is busy after everything was joined" % d, "busy after join")
    # tasks
    iv = {}
    for i, (runs, afters, sig, asig, sub0, sub1, st, en, a0, a1, aft, pay, here, alone) in enumerate(T.tolist()):
        w = "%s: task %d" % (d, i)
        ck(runs == 1, "%s ran %d times" % (w, runs), "runs")
        ck(afters == (1 if aft else 0), "%s: the task after it ran %d times" % (w, afters), "afters")
        ck(sub0 < st < en, "%s: submitted %d started %d ended %d" % (w, sub0, st, en), "order")
        if aft:
            ck(en < a0 < a1, "%s: ended %d, after it %d..%d" % (w, en, a0, a1), "after order")
            ck(asig == sig, "%s got signet %d, the task after it %d" % (w, sig, asig), "after signet")
        ck(pay == 7 + bool(aft), "%s: what it wrote is not seen after the join" % w, "visible")
        if not alone:
            ck(0 <= sig < max(size, 1), "%s got signet %d" % (w, sig), "signet")
            iv.setdefault(sig, []).append((st, a1 if aft else en, i))
            if size == 0:
                ck(here == 1, "%s ran on another thread" % w, "inline")
                ck((a1 if aft else en) < sub1, "%s: run returned before it ended" % w, "inline end")
    for s, xs in iv.items() if size else ():
        xs.sort()
        for (b0, e0, i), (b1, e1, j) in zip(xs, xs[1:]):
            ck(e0 < b1, "%s: tasks %d and %d run at once with signet %d" % (d, i, j, s), "exclusive")
    # operations
    gated = [(int(O[x][0]), int(O[x][1])) for x in range(A) if allops[x][1] == 4 and size]
    for x, (k, kind, a, b, c, bound) in enumerate(allops):
        t0, t1, v, w, task, kk = O[x].tolist()
        w_ = "%s: operation %d %s" % (d, x, OPS[kind])
        ck(kk == kind and 0 < t0 < t1, "%s: log broken %r" % (w_, O[x].tolist()), "log")
        if kind in (0, 1, 4):
            ck(w == 0, "%s returned %s" % (w_, "a thread" if size == 0 else "no thread"), "returned thread")
        if kind == 4:
            ck(v % 1000 == 0, "%s: the pool was not busy at %d of %d probes with the task held" % (w_, v % 1000, c), "busy pool")
            ck(v // 1000 == 0, "%s: the thread was not busy at %d of %d probes with its task held" % (w_, v // 1000, c), "busy thread")
        elif kind == 2:
            for i, t in enumerate(T.tolist()):
                if not t[13] and t[5] < t0:
                    ck(max(t[7], t[9]) < t1, "%s returned at %d, task %d submitted before it ended at %d" % (w_, t1, i, max(t[7], t[9])), "join")
            if n == 1:
                ck(v == 0, "%s: the pool is busy after it" % w_, "busy joined")
        elif kind == 3:
            if size == 0:
                ck(v == 0, "%s: a pool without threads is busy" % w_, "busy none")
            elif n == 1:
                # nothing can be running when every task submitted so far has ended and was joined
                prev = [y for y in range(x) if allops[y][1] in (0, 1, 4, 6, 7)]
                joins = [y for y in range(x) if allops[y][1] == 2 or (allops[y][1] == 8 and allops[y][5])]
                if not prev or (joins and max(joins) > max(prev)):
                    ck(v == 0, "%s: the pool is busy with nothing to do" % w_, "busy idle")
        elif kind == 5:
            if w:
                t = T[task]
                ck(max(t[7], t[9]) < t1, "%s returned at %d, its task ended at %d" % (w_, t1, max(t[7], t[9])), "thread join")
        elif kind in (6, 7):
            ck(v % 1000000 == 0, "%s: %d elements were not visited exactly once" % (w_, v % 1000000), "cover")
            ck(v // 1000000 == 0, "%s: a signet or a range out of bounds (%d)" % (w_, v // 1000000), "loop bounds")
            ck(w == 0, "%s ran on another thread without a pool to run on" % w_, "loop inline")
        elif kind in (8, 11):
            want = max(size, 1) if bound else 1
            ck(w == want, "%s: parallel size %d, expected %d" % (w_, w, want), "parallel size")
            if kind == 11:
                ck(v == 0, "%s: elements not visited once by each loop, or signet out of bounds (%d)" % (w_, v), "macros")
        elif kind == 10:
            ck(v == 0, "%s: not busy at %d of %d probes with its task held" % (w_, v, c), "busy thread")
            ck(w == 0, "%s: busy after join" % w_, "busy thread joined")
            ck(T[task][2] == b, "%s: signet %d" % (w_, T[task][2]), "thread signet")
    work = sum(1 for o in allops if o[1] in (0, 1, 4, 6, 7, 11))
    labels = {"size %d" % size: 1, "submitters %d" % n: 1}
    for o in allops:
        labels[OPS[o[1]]] = 1
    return {"desc": d, "labels": sorted(labels), "nt": size >= 2 and work >= 2}


def bins(src, env):
    large = src.bool(0.4)
    if large:
        a, b, n = src.int(0, 1 << 40), src.int(0, 1 << 40), src.weighted([(3, src.int(0, 40)), (1, src.int(1, 3000))])
        if src.bool(0.5):
            b = a + src.int(-2, 5000)
            b = max(b, 0)
    else:
        a = src.weighted([(3, src.int(-50, 50)), (1, src.int(-(1 << 29), 1 << 29))])
        b = src.weighted([(4, a + src.int(-3, 100)), (1, src.int(-(1 << 29), 1 << 29))])
        n = src.weighted([(4, src.int(-2, 20)), (1, src.int(1, 3000))])
    cap = 8192
    out = np.zeros(2 * cap, np.uint64 if large else np.int32)
    f = env.pool.po_lsplit if large else env.pool.po_split
    k = f(a, b, n, out.ctypes.data_as(C.c_void_p), cap)
    d = "%s(%d, %d, %d)" % ("lsplit_bins" if large else "split_bins", a, b, n)
    xs = [(int(out[2 * i]), int(out[2 * i + 1])) for i in range(min(k, cap))]
    d += " = %r" % (xs[:12],)
    ck(k <= max(n, 1), "%s: %d bins" % (d, k), "bins number")
    if b <= a:
        ck(k == 0, "%s: bins of an empty range" % d, "bins empty")
    else:
        ck(k >= 1 and xs[0][0] == a and xs[-1][1] == b, "%s does not cover the range" % d, "bins cover")
        for p, q in zip(xs, xs[1:]):
            ck(p[1] == q[0], "%s: gap or overlap" % d, "bins touch")
        ck(all(p < q for p, q in xs), "%s: an empty bin" % d, "bin empty")
        # all bins have one size, the last one may be smaller
        ck(len({q - p for p, q in xs[:-1]}) <= 1 and xs[-1][1] - xs[-1][0] <= xs[0][1] - xs[0][0], "%s: uneven" % d, "bins even")
        if n >= 1 and b - a < 1 << 29:
            ck(xs[0][1] - xs[0][0] == -(-(b - a) // n), "%s: the bins have %d elements" % (d, xs[0][1] - xs[0][0]), "bins size")
    return {"desc": d, "labels": [d.split("(")[0]], "nt": k >= 2}


def ctx(src, env):
    threads = src.int(1, 4)
    n = src.int(1, 14)
    prog, want, desc, nt = [], [], [], 0
    for k in range(threads):
        st, cur = [], -1
        dd = []
        for i in range(n):
            o = src.weighted([(4, 1), (3, 0), (1, 2)])
            v = src.int(0, 3)
            if o == 2:
                v = src.int(-1, 3)
                cur = v
            elif o == 1:
                st.append(cur)
                cur = v
                nt = max(nt, len(st))
            elif st:
                cur = st.pop()
            prog += [o, v]
            want.append(cur)
            dd.append(("pop", "bind%d" % v, "set%d" % v)[o])
        desc.append(" ".join(dd))
    p = np.array(prog, np.int32)
    out = np.zeros(threads * n, np.int64)
    env.pool.po_ctx(p.ctypes.data_as(C.c_void_p), n, threads, out.ctypes.data_as(C.c_void_p))
    d = "contexts | " + " | ".join(desc)
    ck(out.tolist() == want, "%s: got %r, expected %r" % (d, out.tolist(), want), "ctx")
    return {"desc": d, "labels": ["threads %d" % threads], "nt": nt >= 2}


def crowd(src, env):
    """many rounds of several threads giving tasks to a small pool while others join it: lost wake-ups show as a case that does not end"""
    size = src.weighted([(5, 1), (4, 2), (2, 3), (1, src.int(0, 6))])
    givers = src.weighted([(2, 1), (3, 2), (1, 3)])
    joiners = src.weighted([(1, 0), (2, 1), (3, 2), (2, 3)])
    rounds = src.int(4, 30)
    each = src.int(1, 6)
    dur = src.weighted([(3, 0), (3, 1), (3, 2), (1, 3)])
    after = src.choice([0, 1, 2])
    joins = src.int(1, 6)
    swaps = src.bool(0.3)
    p = np.array([size, givers, joiners, rounds, each, dur, after, joins, int(swaps)], np.int32)
    out = np.zeros(8, np.int64)
    env.pool.po_crowd(p.ctypes.data_as(C.c_void_p), out.ctypes.data_as(C.c_void_p))
    d = ("%d rounds on a pool of %d%s: %d threads give %d tasks each (duration kind %d, %s), %d threads join %d times"
         % (rounds, size, " made anew each round" if swaps else "", givers, each, dur, ("no task after", "every other with a task after", "a task after each")[after], joiners, joins))
    ck(out[4] == 0, "%s: %d tasks ran with a number out of range or in use, before the one they follow, or left the pool busy" % (d, out[4]), "crowd number")
    ck(out[5] == 0, "%s: a join returned early %d times" % (d, out[5]), "crowd join")
    ck(out[0] == out[1] and out[2] == out[3], "%s: %d tasks ran of %d, %d after them of %d" % (d, out[0], out[1], out[2], out[3]), "crowd runs")
    return {"desc": d, "labels": ["givers %d joiners %d" % (givers, joiners)], "nt": size >= 1 and givers + joiners >= 2}


TARGETS = {"pool": pool, "bins": bins, "ctx": ctx, "crowd": crowd}
WEIGHTS = {"pool": 6, "bins": 2, "ctx": 1, "crowd": 1}
