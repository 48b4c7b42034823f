"""Tensors, stacks, prototypes and bubbles of the C++ core behave as their models do."""
import ctypes as C
import struct
import numpy as np
from tv import ops, fmt
from tv.gen import Violation, Discard

ID = "P34"
RULE = ("histories of up to 40 calls on up to 10 tensors (11 value types, up to 4 dimensions of up to 4, up to 4 fields, memory from 11 constructors and hard, synchronised and "
        "flow controllers), a stack of tensors (frames, erasures, copies, clones) and up to 2 bubbles that hold them; every tensor alive is compared with the model after every call, "
        "so writes through one tensor must show in exactly those that share its memory; bubbles alone and written and read back; prototypes of up to 4 fields; "
        "strings and sizes for the helpers; non-trivial = at least 6 calls took effect, or at least 2 fields, characters or params; distinct by history")
CASES = {"quick": 5000, "thorough": 200000}
SHIMS = ("core",)
VARIANTS = ("rel", "asan")

TYPES = [fmt.INT8, fmt.UINT8, fmt.INT16, fmt.UINT16, fmt.INT32, fmt.UINT32, fmt.INT64, fmt.UINT64, fmt.FLOAT16, fmt.FLOAT32, fmt.FLOAT64]
TNAME = {fmt.VOID: "void", fmt.INT8: "int8", fmt.UINT8: "uint8", fmt.INT16: "int16", fmt.UINT16: "uint16", fmt.INT32: "int32", fmt.UINT32: "uint32",
         fmt.INT64: "int64", fmt.UINT64: "uint64", fmt.FLOAT16: "float16", fmt.FLOAT32: "float32", fmt.FLOAT64: "float64", fmt.CHAR8: "char8", fmt.BOOLEAN: "bool"}
PTRS = ("k_new k_void k_clone k_copy k_move k_reshape k_flatten k_slice1 k_slice2 k_weak k_strong k_view k_field k_Pack k_cast k_tclone "
        "s_new s_index s_top b_new b_copy b_move b_get").split()
STRS = "k_err k_proto_str k_proto0_str k_proto_prog b_info b_keys h_mem".split()


class Lib:
    def __init__(self, path):
        self.l = C.CDLL(path)
        for n in PTRS:
            getattr(self.l, n).restype = C.c_void_p
        for n in STRS:
            getattr(self.l, n).restype = C.c_char_p
        self.l.h_mem.argtypes = [C.c_uint64]

    def __getattr__(self, n):
        f = getattr(self.l, n)

        def call(*a):
            b = []
            for x in a:
                if isinstance(x, P):
                    b.append(C.c_void_p(x.p))
                elif isinstance(x, (list, tuple)):
                    b.append((C.c_int32 * max(len(x), 1))(*x))
                elif isinstance(x, str):
                    b.append(x.encode())
                else:
                    b.append(x)
            r = f(*b)
            return r.decode("latin-1") if isinstance(r, bytes) else r
        setattr(self, n, call)
        return call


class P:
    """a raw pointer"""

    def __init__(self, p):
        self.p = p


def setup(libs):
    env = ops.Env(libs)
    env.core = Lib(libs["core"])
    return env


def ck(c, msg, sig):
    if not c:
        raise Violation(msg, sig=sig)


class Mem:
    """what a tensor's pointer counts: a region of a buffer, borrowed from parent if it has one"""

    def __init__(self, buf, off, n, parent=None):
        self.buf, self.off, self.n, self.parent = buf, off, n, parent

    def get(self):
        return bytes(self.buf[self.off:self.off + self.n])


EMPTY = Mem(bytearray(), 0, 0)


class F:
    __slots__ = ("mem", "strong", "dt", "shape")

    def __init__(self, mem, strong, dt, shape):
        self.mem, self.strong, self.dt, self.shape = mem, strong, dt, tuple(shape)

    def re(self, **k):
        f = F(self.mem, self.strong, self.dt, self.shape)
        for a, b in k.items():
            setattr(f, a, b)
        return f

    @property
    def nbytes(self):
        return fmt.prod(self.shape) * fmt.BYTES[self.dt]

    def data(self):
        return bytes(self.mem.buf[self.mem.off:self.mem.off + self.nbytes])

    def arr(self):
        return np.frombuffer(self.data(), fmt.NP[self.dt])


def void():
    return F(EMPTY, True, fmt.VOID, ())


def fresh(dt, shape, data):
    return F(Mem(bytearray(data), 0, len(data)), True, dt, shape)


def values(src, dt, n):
    return np.array([src.int(0, 100) for _ in range(n)], fmt.NP[dt]).tobytes()


def shape(src):
    r = src.weighted([(1, 0), (4, 1), (5, 2), (3, 3), (1, 4)])
    return tuple(src.weighted([(12, src.int(1, 3)), (1, 0), (1, 4)]) for _ in range(r))


def pstr(dt, sh):
    return "%s:[%s]" % (TNAME[dt], ", ".join(str(i) for i in sh))


def enc_tensor(fs):
    b = struct.pack("<I", len(fs))
    for f in fs:
        b += struct.pack("<BI", f.dt, len(f.shape)) + struct.pack("<%di" % len(f.shape), *f.shape) + f.data()
    return b


class World:
    def __init__(self, env):
        self.L = env.core
        self.T = {}         # slot -> [P, fields]
        self.next = 0
        self.S = None       # stack pointer
        self.st = []        # entries: list of fields
        self.base, self.bases = 0, []
        self.B = {}         # slot -> [P, dict name -> fields]
        self.log = []
        self.done = 0

    # ---- which pointers are valid
    def holders(self, T=None, st=None, B=None):
        T = self.T if T is None else T
        for k, (p, fs) in T.items():
            yield fs
        for fs in (self.st if st is None else st):
            yield fs
        for k, (p, d) in (self.B if B is None else B).items():
            for fs in d["params"].values():
                yield fs

    def alive(self, groups):
        """the memories with an owner, as a set of ids"""
        groups = [g for g in groups]
        live = {id(EMPTY)} | {id(f.mem) for fs in groups for f in fs if f.strong}
        mems = {id(f.mem): f.mem for fs in groups for f in fs}
        ok = {}

        def good(m):
            if m is None:
                return True
            i = id(m)
            if i not in ok:
                ok[i] = i in live and good(m.parent)
            return ok[i]
        return {i for i in mems if good(mems[i])}

    def bad(self, groups):
        groups = list(groups)
        while True:
            live = self.alive(groups)
            dead = [fs for fs in groups if any(id(f.mem) not in live for f in fs)]
            if not dead:
                return groups
            groups = [fs for fs in groups if fs not in dead]

    def survives(self, T, st, B):
        """whether after the change everything the stack and the bubbles hold is valid; slots of tensors to be freed first"""
        drop = []
        T = dict(T)
        while True:
            live = self.alive(self.holders(T, st, B))
            d = [k for k, (p, fs) in T.items() if any(id(f.mem) not in live for f in fs)]
            for fs in st:
                if any(id(f.mem) not in live for f in fs):
                    return None
            for k, (p, q) in B.items():
                for fs in q["params"].values():
                    if any(id(f.mem) not in live for f in fs):
                        return None
            if not d:
                return drop
            for k in d:
                drop.append(k)
                del T[k]

    def commit(self, T=None, st=None, B=None):
        """the change may happen: borrowers it would leave behind are freed first. False = leave it"""
        T2 = self.T if T is None else T
        drop = self.survives(T2, self.st if st is None else st, self.B if B is None else B)
        if drop is None:
            return False
        for k in drop:
            if k not in self.T or T2[k][1] is not self.T[k][1]:
                return False
        for k in drop:
            self.log.append("free t%d" % k)
            self.L.k_free(self.T[k][0])
            del self.T[k]
            if T is not None:
                T.pop(k, None)
        return True

    def add(self, p, fs, what):
        ck(p, "%s: failed: %s" % (self.say(), self.L.k_err()), what)
        k = self.next
        self.next += 1
        self.T[k] = [P(p), fs]
        return k

    def say(self):
        return "; ".join(self.log)

    def same(self, p, fs, name):
        o = (C.c_int32 * 64)()
        n = self.L.k_desc(p, o)
        ck(n > 0, "%s: %s cannot be described (%d %s)" % (self.say(), name, n, self.L.k_err()), "describe")
        o = list(o[:n])
        want = [len(fs), int(len(fs) > 1), int(fs[0].dt == fmt.VOID and not fs[0].shape), int(not fs[0].shape), len(fs[0].shape), fmt.prod(fs[0].shape), fs[0].dt, 1]
        for f in fs:
            want += [f.dt, len(f.shape)] + list(f.shape)
        ck(o == want, "%s: %s is %r, expected %r" % (self.say(), name, o, want), "fields")
        for i, f in enumerate(fs):
            nb = f.nbytes
            b = C.create_string_buffer(max(nb, 1))
            r = self.L.k_read(p, i, b, nb)
            ck(r == nb, "%s: %s field %d cannot be read (%d %s)" % (self.say(), name, i, r, self.L.k_err()), "read")
            ck(b.raw[:nb] == f.data(), "%s: %s field %d %s holds %s, expected %s" % (self.say(), name, i, pstr(f.dt, f.shape), b.raw[:nb].hex(), f.data().hex()), "contents")

    def verify(self):
        for k, (p, fs) in self.T.items():
            self.same(p, fs, "t%d" % k)
        if self.S:
            n = len(self.st) - self.base
            ck(self.L.s_size(self.S) == n and self.L.s_base(self.S) == self.base, "%s: the stack has size %d base %d, expected %d %d"
               % (self.say(), self.L.s_size(self.S), self.L.s_base(self.S), n, self.base), "stack size")
            for i in range(n):
                p = P(self.L.s_index(self.S, i, i % 5))
                ck(p.p, "%s: stack[%d]: %s" % (self.say(), i, self.L.k_err()), "stack index")
                try:
                    self.same(p, self.st[self.base + i], "stack[%d]" % i)
                finally:
                    self.L.k_free(p)
        for k, (p, d) in self.B.items():
            self.bubble_same(p, d, "b%d" % k)

    def bubble_same(self, p, d, name):
        L = self.L
        want = "%s|%s|[%s]|%d|1|%d|{op=\"%s\", name=\"%s\", out=1}" % (d["op"], d["name"], ", ".join(str(i) for i in d["shape"]), d["dtype"], len(d["params"]), d["op"], d["name"])
        got = L.b_info(p)
        ck(got == want, "%s: %s is %s, expected %s" % (self.say(), name, got, want), "bubble")
        keys = sorted(L.b_keys(p).split("\n")[:-1])
        ck(keys == sorted(d["params"]), "%s: %s has params %r, expected %r" % (self.say(), name, keys, sorted(d["params"])), "params")
        for k, fs in d["params"].items():
            t = P(L.b_get(p, k, len(k) & 1))
            ck(t.p, "%s: %s.get(%s): %s" % (self.say(), name, k, L.k_err()), "get")
            try:
                self.same(t, fs, "%s.%s" % (name, k))
            finally:
                L.k_free(t)

    def end(self):
        # borrowers before their owners
        for k in sorted(self.T, reverse=True):
            self.L.k_free(self.T[k][0])
        if self.S:
            self.L.s_free(self.S)
        for p, d in self.B.values():
            self.L.b_free(p)


def text(s):
    b = s.encode()
    return fresh(fmt.CHAR8, (len(b),), b)


def new_bubble(src, w):
    op, name = src.choice(["add", "a", "", "<param>"]), src.choice(["n", "", "x1", "node"])
    sh = shape(src)
    how = src.int(0, 7)
    count = 1 if how < 4 or src.bool(0.8) else src.int(0, 3)
    w.log.append("Bubble#%d(%r, %r, %r, %d)" % (how, op, name, sh, count))
    p = w.L.b_new(how, op, name, list(sh), len(sh), count)
    if how >= 4 and count != 1:
        ck(not p, "%s: accepted" % w.say(), "bubble count")
        return None
    ck(p, "%s: %s" % (w.say(), w.L.k_err()), "bubble new")
    d = {"op": op, "name": name if how in (1, 3, 5, 7) else "", "shape": sh if how in (2, 3, 6, 7) else (), "dtype": 0, "params": {}}
    d["params"]["#op"] = [text(d["op"])]
    d["params"]["#name"] = [text(d["name"])]
    if d["shape"]:
        d["params"]["#shape"] = [fresh(fmt.INT32, (len(sh),), np.array(sh, np.int32).tobytes())]
    return p, d


KEYS = ["x", "y", "weights", "#tag", "stride"]


def hist(src, env):
    w = World(env)
    try:
        return _hist(src, env, w)
    finally:
        w.end()


def _hist(src, env, w):
    L = w.L
    stack = src.bool(0.6)
    if stack:
        w.S = P(L.s_new(src.int(0, 3)))
        w.log.append("stack")
    bubbles = src.bool(0.4)
    n = src.int(3, 40)
    labels = set()
    for _ in range(n):
        ts = sorted(w.T)
        kinds = [(3, "new")] if len(ts) < 10 else []
        if ts:
            kinds += [(4, "write"), (2, "free"), (2, "assign"), (1, "swap"), (1, "moveassign"), (2, "pack"), (2, "setfield"), (1, "refield"), (2, "ask"), (1, "ser"), (1, "ext"), (1, "broadcast")]
            if len(ts) < 10:
                kinds += [(3, "clone"), (2, "copy"), (1, "move"), (2, "reshape"), (1, "flatten"), (2, "slice1"), (2, "slice2"), (2, "weak"), (1, "strong"), (1, "view"),
                          (2, "field"), (2, "Pack"), (1, "unpack"), (2, "cast"), (1, "tclone")]
        if stack:
            kinds += [(2, "s.make")]
            if ts:
                kinds += [(4, "s.push"), (2, "s.clone_push")]
            if len(w.st) > w.base:
                kinds += [(2, "s.push_i"), (1, "s.clone_i"), (2, "s.index"), (1, "s.top"), (2, "s.pop"), (1, "s.popn"), (2, "s.erase"), (2, "s.erase2"), (1, "s.set"), (1, "s.all"), (1, "s.bad")]
            kinds += [(1, "s.clear"), (2, "s.push_base"), (2, "s.pop_base"), (1, "s.rebase")]
        if bubbles:
            if len(w.B) < 2:
                kinds += [(2, "b.new")]
            if w.B:
                kinds += [(3, "b.set"), (2, "b.get"), (1, "b.has"), (2, "b.clear"), (1, "b.clear_params"), (1, "b.op"), (1, "b.shape"), (1, "b.dtype"), (1, "b.copy"), (1, "b.move"), (1, "b.round"), (1, "b.num")]
        op = src.weighted(kinds)
        a = src.choice(ts) if ts else None
        b = src.choice(ts) if ts else None
        step(src, w, op, a, b)
        labels.add(op)
        w.verify()
    return {"desc": w.say()[:3000], "labels": sorted(labels), "nt": w.done >= 6}


def groups_but(w, a, fs):
    T = {k: v for k, v in w.T.items()}
    T[a] = [w.T[a][0], fs]
    return T


def step(src, w, op, a, b):
    L, log = w.L, w.log
    if a is not None:
        pa, fa = w.T[a]
        pb, fb = w.T[b]
    w.done += 1
    if op == "new":
        if src.bool(0.05):
            how = src.int(0, 2)
            log.append("t%d = empty#%d" % (w.next, how))
            w.add(L.k_void(how), [void()], "void")
            return
        dt, sh, how = src.choice(TYPES), shape(src), src.int(0, 43)
        data = values(src, dt, fmt.prod(sh))
        log.append("t%d = new#%d %s" % (w.next, how, pstr(dt, sh)))
        w.add(L.k_new(how, dt, list(sh), len(sh), data), [fresh(dt, sh, data)], "new")
    elif op == "write":
        i = src.int(0, len(fa) - 1)
        f = fa[i]
        if not f.nbytes:
            w.done -= 1
            return
        e = fmt.BYTES[f.dt]
        k = src.int(0, f.nbytes // e - 1)
        v = values(src, f.dt, 1)
        log.append("t%d[%d][%d] = %s" % (a, i, k, v.hex()))
        ck(L.k_write(pa, i, k * e, v, e) == 1, "%s: %s" % (w.say(), L.k_err()), "write")
        f.mem.buf[f.mem.off + k * e:f.mem.off + k * e + e] = v
    elif op == "free":
        T = {k: v for k, v in w.T.items() if k != a}
        if not w.commit(T=T):
            return
        log.append("free t%d" % a)
        L.k_free(pa)
        del w.T[a]
    elif op == "assign":
        if not w.commit(T=groups_but(w, a, list(fb))) or b not in w.T:
            return
        log.append("t%d = t%d" % (a, b))
        ck(L.k_assign(pa, pb) == 1, "%s: %s" % (w.say(), L.k_err()), "assign")
        w.T[a][1] = list(fb)
    elif op == "swap":
        if a == b:
            return
        log.append("swap t%d t%d" % (a, b))
        ck(L.k_swap(pa, pb) == 1, "%s: %s" % (w.say(), L.k_err()), "swap")
        w.T[a][1], w.T[b][1] = fb, fa
    elif op == "moveassign":
        if a == b:
            return
        T = groups_but(w, a, fb)
        del T[b]
        if not w.commit(T=T) or a not in w.T or b not in w.T:
            return
        log.append("t%d = move(t%d)" % (a, b))
        ck(L.k_move_assign(pa, pb) == 1, "%s: %s" % (w.say(), L.k_err()), "move assign")
        w.T[a][1] = fb
        del w.T[b]
    elif op == "move":
        log.append("t%d = new move(t%d)" % (w.next, a))
        p = L.k_move(pa)
        del w.T[a]
        w.add(p, fa, "move")
    elif op == "copy":
        log.append("t%d = copy t%d" % (w.next, a))
        w.add(L.k_copy(pa), list(fa), "copy")
    elif op == "clone":
        how = src.int(0, 31)
        log.append("t%d = clone#%d t%d" % (w.next, how, a))
        w.add(L.k_clone(pa, how), [fresh(f.dt, f.shape, f.data()) for f in fa], "clone")
    elif op == "reshape":
        f = fa[0]
        c = fmt.prod(f.shape)
        k = src.int(0, 3)
        if k == 0:
            s = [src.int(-1, 4) for _ in range(src.int(0, 4))]
        else:
            s, rest = [], c
            while rest > 1 and len(s) < 5:
                d = src.choice([x for x in range(1, rest + 1) if rest % x == 0])
                s.append(d)
                rest //= d
            if rest > 1:
                s.append(rest)
            if not c:
                s = list(f.shape)[::-1]
            if k == 2 and s:
                s[src.int(0, len(s) - 1)] = -1 if src.bool(0.8) else -3
            if k == 3:
                s.insert(src.int(0, len(s)), 1)
        log.append("t%d = reshape t%d %r" % (w.next, a, s))
        p = L.k_reshape(pa, s, len(s))
        neg = [i for i, x in enumerate(s) if x < 0]
        want = list(s)
        ok = len(neg) <= 1
        if ok and neg:
            d = fmt.prod([x for x in s if x >= 0])
            ok = d > 0 and c % d == 0
            if ok:
                want[neg[0]] = c // d
        ok = ok and fmt.prod(want) == c
        if not ok:
            ck(not p, "%s: accepted" % w.say(), "reshape refuse")
            return
        w.add(p, [f.re(shape=tuple(want))] + fa[1:], "reshape")
    elif op == "flatten":
        f, d, dflt = fa[0], src.int(-1, 5), src.bool(0.2)
        log.append("t%d = flatten t%d %s" % (w.next, a, "" if dflt else d))
        p = L.k_flatten(pa, d, int(dflt))
        d = 0 if dflt else max(d, 0)
        s = f.shape
        if d + 1 < len(s):
            s = s[:d] + (fmt.prod(s[d:]),)
        s = s + (1,) * (d + 1 - len(s))
        w.add(p, [f.re(shape=s)] + fa[1:], "flatten")
    elif op in ("slice1", "slice2"):
        f = fa[0]
        lim = f.shape[0] if f.shape else 0
        i = src.weighted([(6, src.int(0, max(lim - 1, 0))), (1, src.int(-2, lim + 1))])
        if op == "slice1":
            log.append("t%d = t%d.slice(%d)" % (w.next, a, i))
            p = L.k_slice1(pa, i)
            ok, j, s = bool(f.shape) and 0 <= i < lim, i + 1, f.shape[1:]
        else:
            j = src.weighted([(6, src.int(i, max(lim, i))), (1, src.int(-1, lim + 2))])
            log.append("t%d = t%d.slice(%d, %d)" % (w.next, a, i, j))
            p = L.k_slice2(pa, i, j)
            ok, s = bool(f.shape) and 0 <= i < j <= lim, (j - i,) + f.shape[1:]
        if not ok:
            ck(not p, "%s: accepted" % w.say(), "slice refuse")
            return
        width = f.nbytes // lim
        m = Mem(f.mem.buf, f.mem.off + i * width, (j - i) * width, f.mem)
        w.add(p, [F(m, True, f.dt, s)], "slice")
    elif op == "weak":
        log.append("t%d = weak t%d" % (w.next, a))
        w.add(L.k_weak(pa), [f.re(strong=False) for f in fa], "weak")
    elif op == "strong":
        log.append("t%d = strong t%d" % (w.next, a))
        w.add(L.k_strong(pa), [f.re(strong=True) for f in fa], "strong")
    elif op == "view":
        how = src.int(0, 1)
        log.append("t%d = view#%d t%d" % (w.next, how, a))
        w.add(L.k_view(pa, how), [f.re(mem=Mem(f.mem.buf, f.mem.off, f.mem.n, f.mem.parent), strong=True) for f in fa], "view")
    elif op == "broadcast":
        log.append("t%d.broadcast()" % a)
        ck(L.k_broadcast(pa) == 1, "%s: %s" % (w.say(), L.k_err()), "broadcast")
    elif op == "field":
        how = src.int(0, 1)
        i = src.weighted([(5, src.int(0 if how else -len(fa), len(fa) - 1)), (1, src.int(0 if how else -6, 6))])
        log.append("t%d = t%d.field#%d(%d)" % (w.next, a, how, i))
        p = L.k_field(pa, i, how)
        if not (0 if how else -len(fa)) <= i < len(fa):
            ck(not p, "%s: accepted" % w.say(), "field refuse")
            return
        w.add(p, [fa[i]], "field")
    elif op == "setfield":
        if len(fb) > 1:
            w.done -= 1
            return
        how = src.int(0, 1)
        i = src.weighted([(5, src.int(0 if how else -len(fa), len(fa) - 1)), (1, src.int(0 if how else -6, 6))])
        ok = (0 if how else -len(fa)) <= i < len(fa)
        new = list(fa)
        if ok:
            new[i] = fb[0]
            if not w.commit(T=groups_but(w, a, new)) or b not in w.T or a not in w.T:
                return
        log.append("t%d.field#%d(%d) = t%d" % (a, how, i, b))
        r = L.k_set_field(pa, i, how, pb)
        ck((r == 1) == ok, "%s: %s" % (w.say(), "refused " + str(L.k_err()) if ok else "accepted"), "set field")
        if ok:
            w.T[a][1] = new
    elif op in ("pack", "Pack"):
        ks = [k for k in sorted(w.T) if len(w.T[k][1]) == 1]
        ks = [src.choice(ks) for _ in range(src.int(0, 4))] if ks else []
        new = [w.T[k][1][0] for k in ks] or [void()]
        arr = lambda: (C.c_void_p * max(len(ks), 1))(*[w.T[k][0].p for k in ks])
        if op == "Pack":
            log.append("t%d = Pack(%s)" % (w.next, " ".join("t%d" % k for k in ks)))
            w.add(L.k_Pack(arr(), len(ks)), new, "Pack")
            return
        if not w.commit(T=groups_but(w, a, new)) or a not in w.T or any(k not in w.T for k in ks):
            return
        log.append("t%d.pack(%s)" % (a, " ".join("t%d" % k for k in ks)))
        ck(L.k_pack(pa, arr(), len(ks)) == 1, "%s: %s" % (w.say(), L.k_err()), "pack")
        w.T[a][1] = new
    elif op == "unpack":
        log.append("unpack t%d" % a)
        out = (C.c_void_p * 16)()
        r = L.k_unpack(pa, out)
        ck(r == len(fa), "%s: %d fields" % (w.say(), r), "unpack")
        for i in range(r):
            w.add(out[i], [fa[i]], "unpack")
    elif op == "refield":
        k = src.int(0, 4)
        new = (fa + [void()] * 4)[:k] or [void()]
        if not w.commit(T=groups_but(w, a, new)) or a not in w.T:
            return
        log.append("t%d.refield(%d)" % (a, k))
        ck(L.k_refield(pa, k) == 1, "%s: %s" % (w.say(), L.k_err()), "refield")
        w.T[a][1] = new
    elif op in ("cast", "tclone"):
        f = fa[0]
        dt = src.choice(TYPES) if src.bool(0.7) else f.dt
        log.append("t%d = %s t%d %s" % (w.next, op, a, TNAME[dt]))
        p = (L.k_cast if op == "cast" else L.k_tclone)(pa, dt)
        if dt == f.dt:
            if op == "cast":
                new = [x.re(mem=Mem(x.mem.buf, x.mem.off, x.mem.n, x.mem.parent), strong=True) for x in fa]
            else:
                new = [fresh(x.dt, x.shape, x.data()) for x in fa]
        elif f.dt == fmt.VOID:
            ck(not p, "%s: accepted" % w.say(), "cast void")
            return
        elif f.dt == fmt.CHAR8:
            new = [fresh(dt, f.shape, f.arr().astype(np.int8).astype(fmt.NP[dt]).tobytes())]
        else:
            new = [fresh(dt, f.shape, f.arr().astype(fmt.NP[dt]).tobytes())]
        w.add(p, new, "cast")
    elif op == "ser":
        log.append("write t%d" % a)
        b_ = C.create_string_buffer(1 << 14)
        r = L.k_ser(pa, b_, 1 << 14, src.int(0, 1))
        want = enc_tensor(fa)
        ck(b_.raw[:max(r, 0)] == want, "%s: %d bytes %s, expected %s" % (w.say(), r, b_.raw[:max(r, 0)].hex(), want.hex()), "serialize")
    elif op == "ext":
        x = enc_tensor(fb)
        new = [fresh(f.dt, f.shape, f.data()) for f in fb]
        if not w.commit(T=groups_but(w, a, new)) or a not in w.T:
            return
        how = src.int(0, 1)
        log.append("t%d read %s#%d" % (a, pstr(new[0].dt, new[0].shape), how))
        r = L.k_ext(pa, x, len(x), how)
        ck(r == len(x), "%s: %d of %d bytes: %s" % (w.say(), r, len(x), L.k_err()), "externalize")
        w.T[a][1] = new
    elif op == "ask":
        f = fa[0]
        s = list(f.shape)
        k = src.int(0, 3)
        if k and s:
            i = src.int(0, len(s) - 1)
            s[i] = -1 if k == 1 else src.int(-1, 4)
        if k == 3:
            s = (s + [src.int(-1, 1) for _ in range(src.int(0, 6))])[:7]
        how = src.int(0, 2)
        log.append("t%d.has_shape#%d(%r)" % (a, how, s))
        want = len(s) == len(f.shape) and all(x < 0 or x == y for x, y in zip(s, f.shape))
        if not (how and not s):
            r = L.k_has_shape(pa, s, len(s), how)
            ck(r == int(want), "%s: %d (%s)" % (w.say(), r, L.k_err()), "has_shape")
        got = L.k_proto_str(pa)
        ck(got == "{" + ", ".join(pstr(x.dt, x.shape) for x in fa) + "}", "%s: prototype %s" % (w.say(), got), "prototype")
        got = L.k_proto0_str(pa)
        ck(got == pstr(f.dt, f.shape), "%s: prototype %s" % (w.say(), got), "prototype 0")
        e = [(x.dt, x.shape) for x in fa] == [(x.dt, x.shape) for x in fb]
        e0 = (fa[0].dt, fa[0].shape) == (fb[0].dt, fb[0].shape)
        want = 0
        for i, q in enumerate([e, e0 and len(fb) == 1, e0 and len(fa) == 1, e0]):
            want |= (1 if q else 2) << (2 * i)
        got = L.k_proto_eq(pa, pb)
        ck(got == want, "%s: comparisons of the prototypes of t%d and t%d: %x expected %x" % (w.say(), a, b, got, want), "prototype equal")
        o = (C.c_double * 256)()
        what = src.int(0, 4)
        r = L.k_to(pa, what, o)
        # a text becomes the number it spells and a void has no number
        if f.dt in TYPES:
            if f.nbytes:
                v = float(f.arr().reshape(-1)[0])
                ck(r == 1 and o[0] == (float(v != 0) if what == 4 else v), "%s: to#%d gives %d %r, expected %r" % (w.say(), what, r, o[0], v), "to number")
            else:
                ck(r == -1, "%s: to#%d of nothing" % (w.say(), what), "to number none")
            what = src.int(0, 5)
            r = L.k_array(pa, what, o)
            v = [float(x != 0) if what == 4 else float(x) for x in f.arr().reshape(-1)]
            ck(r == len(v) and list(o[:r]) == v, "%s: array#%d gives %r, expected %r" % (w.say(), what, list(o[:max(r, 0)]), v), "to array")
    elif op.startswith("s."):
        stack_step(src, w, op[2:], a)
    else:
        bubble_step(src, w, op[2:], a)


def stack_step(src, w, op, a):
    L, log = w.L, w.log
    n = len(w.st) - w.base
    if op == "make":
        k = src.weighted([(4, 1), (1, 2), (1, 3)])
        ps = [(src.choice(TYPES), shape(src)) for _ in range(k)]
        data = [values(src, d, fmt.prod(s)) for d, s in ps]
        how = src.int(0, 11)
        log.append("push#%d %s" % (how, " ".join(pstr(*p) for p in ps)))
        prog = []
        for d, s in ps:
            prog += [d, len(s)] + list(s)
        r = L.s_make(w.S, prog, k, how, b"".join(data))
        ck(r == 1, "%s: %d %s" % (w.say(), r, L.k_err()), "stack make")
        w.st = w.st + [[fresh(d, s, x) for (d, s), x in zip(ps, data)]]
    elif op in ("push", "clone_push"):
        p, fs = w.T[a]
        how = src.int(0, 1)
        log.append("%s t%d" % (op, a))
        if op == "push":
            r = L.s_push(w.S, p)
            w.st = w.st + [list(fs)]
        else:
            r = L.s_clone_push(w.S, p, how)
            w.st = w.st + [[fresh(f.dt, f.shape, f.data()) for f in fs]]
        ck(r == 1, "%s: %d %s" % (w.say(), r, L.k_err()), "stack push")
    elif op in ("push_i", "clone_i", "index", "set", "erase"):
        i = src.int(-n, n - 1)
        j = w.base + i if i >= 0 else len(w.st) + i
        fs = w.st[j]
        if op == "index":
            if len(w.T) >= 10:
                return
            how = src.int(0, 4)
            log.append("t%d = stack[%d]#%d" % (w.next, i, how))
            w.add(L.s_index(w.S, i, how), list(fs), "stack index")
            return
        if op == "push_i":
            log.append("push(%d)" % i)
            r = L.s_push_i(w.S, i)
            w.st = w.st + [list(fs)]
        elif op == "clone_i":
            how = src.int(0, 1)
            log.append("clone(%d)" % i)
            r = L.s_clone_i(w.S, i, how)
            w.st = w.st + [[fresh(f.dt, f.shape, f.data()) for f in fs]]
        elif op == "set":
            if a is None:
                return
            st = list(w.st)
            st[j] = list(w.T[a][1])
            if not w.commit(st=st) or a not in w.T:
                return
            log.append("stack[%d] = t%d" % (i, a))
            r = L.s_set(w.S, i, w.T[a][0])
            w.st = st
        else:
            st = w.st[:j] + w.st[j + 1:]
            if not w.commit(st=st):
                return
            log.append("erase(%d)" % i)
            r = L.s_erase(w.S, i)
            w.st = st
        ck(r == 1, "%s: %d %s" % (w.say(), r, L.k_err()), "stack " + op)
    elif op == "top":
        if len(w.T) >= 10:
            return
        log.append("t%d = top" % w.next)
        w.add(L.s_top(w.S, src.int(0, 1)), list(w.st[-1]), "stack top")
    elif op == "bad":
        i = src.choice([n, n + 1, n + 7, -len(w.st) - 1, -len(w.st) - 5])
        log.append("stack[%d] refused" % i)
        p = L.s_index(w.S, i, src.int(0, 4))
        ck(not p, "%s: accepted" % w.say(), "stack index refuse")
    elif op in ("pop", "popn", "erase2", "clear"):
        if op == "pop":
            st, f, s = w.st[:-1], (lambda: L.s_pop(w.S, -1)), "pop"
        elif op == "popn":
            k = src.int(0, n)
            st, f, s = w.st[:len(w.st) - k], (lambda: L.s_pop(w.S, k)), "pop %d" % k
        elif op == "clear":
            st, f, s = w.st[:w.base], (lambda: L.s_clear(w.S)), "clear"
        else:
            i = src.int(0, n)
            j = src.int(i, n)
            st = w.st[:w.base + i] + w.st[w.base + j:]
            i2 = i - n if i < n and src.bool(0.3) else i
            j2 = j - n if j < n and src.bool(0.3) else j
            f, s = (lambda: L.s_erase2(w.S, i2, j2)), "erase(%d, %d)" % (i2, j2)
        if not w.commit(st=st):
            return
        log.append(s)
        ck(f() == 1, "%s: %s" % (w.say(), L.k_err()), "stack " + op)
        w.st = st
    elif op == "push_base":
        i = src.int(-n, n)
        log.append("push_base(%d)" % i)
        ck(L.s_push_base(w.S, i) == 1, w.say(), "push_base")
        w.bases.append(w.base)
        w.base = w.base + i if i >= 0 else len(w.st) + i
    elif op == "pop_base":
        new = w.bases[-1] if w.bases else 0
        if new > len(w.st):
            return
        log.append("pop_base")
        ck(L.s_pop_base(w.S) == 1, w.say(), "pop_base")
        if w.bases:
            w.bases.pop()
        w.base = new
    elif op == "rebase":
        i = src.int(0, len(w.st))
        log.append("rebase(%d)" % i)
        r = L.s_rebase(w.S, i)
        ck(r == w.base, "%s: returned %d, the base was %d" % (w.say(), r, w.base), "rebase")
        w.base = i
    elif op == "all":
        log.append("iterate")
        out = (C.c_void_p * 256)()
        r = L.s_all(w.S, out, src.int(0, 1))
        ck(r == n, "%s: %d of %d" % (w.say(), r, n), "iterate")
        for i in range(r):
            try:
                w.same(P(out[i]), w.st[w.base + i], "stack item %d" % i)
            finally:
                L.k_free(P(out[i]))


def bubble_step(src, w, op, a):
    L, log = w.L, w.log
    if op == "new":
        r = new_bubble(src, w)
        if r:
            w.B[w.next] = [P(r[0]), r[1]]
            w.next += 1
        return
    k = src.choice(sorted(w.B))
    p, d = w.B[k]
    key = src.choice(KEYS)

    def change(params):
        B = dict(w.B)
        B[k] = [p, dict(d, params=params)]
        return w.commit(B=B)
    if op == "set":
        if a is None:
            return
        new = dict(d["params"])
        new[key] = list(w.T[a][1])
        if not change(new) or a not in w.T:
            return
        log.append("b%d.set(%s, t%d)" % (k, key, a))
        ck(L.b_set(p, key, w.T[a][0]) == 1, "%s: %s" % (w.say(), L.k_err()), "set")
        d["params"] = new
    elif op == "get":
        if len(w.T) >= 10:
            return
        log.append("b%d.get(%s)" % (k, key))
        q = L.b_get(p, key, src.int(0, 1))
        if key not in d["params"]:
            ck(not q, "%s: accepted" % w.say(), "get refuse")
            # the closest name is told
            return
        w.add(q, list(d["params"][key]), "get")
    elif op == "has":
        log.append("b%d.has(%s)" % (k, key))
        r = L.b_has(p, key)
        ck(bool(r & 1) == (key in d["params"]), "%s: %d" % (w.say(), r), "has")
    elif op == "clear":
        new = {x: y for x, y in d["params"].items() if x != key}
        if not change(new):
            return
        log.append("b%d.clear(%s)" % (k, key))
        r = L.b_clear(p, key)
        ck((r == 1) == (key in d["params"]), "%s: %d %s" % (w.say(), r, L.k_err()), "clear")
        d["params"] = new
    elif op == "clear_params":
        new = {x: y for x, y in d["params"].items() if x.startswith("#")}
        if not change(new):
            return
        log.append("b%d.clear_params()" % k)
        ck(L.b_clear_params(p) == 1, "%s: %s" % (w.say(), L.k_err()), "clear_params")
        d["params"] = new
    elif op == "op":
        v, which = src.choice(["mul", "", "relu", "x"]), src.choice(["op", "name"])
        log.append("b%d.%s(%r)" % (k, which, v))
        ck((L.b_op if which == "op" else L.b_name)(p, v) == 1, w.say(), "set op")
        d[which] = v
        d["params"]["#" + which] = [text(v)]
    elif op == "shape":
        s = tuple(src.int(-1, 5) for _ in range(src.int(1, 4)))
        log.append("b%d.shape(%r)" % (k, s))
        ck(L.b_shape(p, list(s), len(s)) == 1, w.say(), "set shape")
        d["shape"] = s
        d["params"]["#shape"] = [fresh(fmt.INT32, (len(s),), np.array(s, np.int32).tobytes())]
    elif op == "dtype":
        v = src.choice(TYPES)
        log.append("b%d.dtype(%s)" % (k, TNAME[v]))
        ck(L.b_dtype(p, v) == 1, w.say(), "set dtype")
        d["dtype"] = v
        d["params"]["#dtype"] = [fresh(fmt.INT32, (1,), np.array([v], np.int32).tobytes())]
    elif op == "copy":
        if len(w.B) < 2:
            log.append("b%d = copy b%d" % (w.next, k))
            q = L.b_copy(p)
            ck(q, "%s: %s" % (w.say(), L.k_err()), "bubble copy")
            w.B[w.next] = [P(q), dict(d, params=dict(d["params"]))]
            w.next += 1
            return
        o = [x for x in w.B if x != k][0]
        B = dict(w.B)
        B[o] = [w.B[o][0], dict(d, params=dict(d["params"]))]
        if not w.commit(B=B):
            return
        log.append("b%d = b%d" % (o, k))
        ck(L.b_assign(w.B[o][0], p) == 1, "%s: %s" % (w.say(), L.k_err()), "bubble assign")
        w.B = B
    elif op == "move":
        log.append("b%d = move(b%d)" % (k, k))
        q = L.b_move(p, src.int(0, 1))
        ck(q, "%s: %s" % (w.say(), L.k_err()), "bubble move")
        w.B[k] = [P(q), d]
    elif op == "round":
        log.append("write and read b%d" % k)
        b = C.create_string_buffer(1 << 16)
        n = L.b_ser(p, b, 1 << 16)
        ck(n > 0, "%s: %d %s" % (w.say(), n, L.k_err()), "bubble write")
        # the order of the params is free
        want = struct.pack("<I", len(d["params"]))
        parts = [struct.pack("<I", len(x)) + x.encode() + enc_tensor(y) for x, y in d["params"].items()]
        ck(n == len(want) + sum(map(len, parts)) and b.raw[:4] == want and all(x in b.raw[:n] for x in parts), "%s: wrote %s" % (w.say(), b.raw[:n].hex()), "bubble bytes")
        old = src.bool()
        if old and len(w.B) == 2:
            o = [x for x in w.B if x != k][0]
        else:
            o = k
        q, dd = w.B[o]
        new = {x: [fresh(f.dt, f.shape, f.data()) for f in y] for x, y in d["params"].items()}
        B = dict(w.B)
        B[o] = [q, dict(d, params=new)]
        if not w.commit(B=B):
            return
        log[-1] += " into b%d" % o
        r = L.b_ext(q, b.raw[:n], n)
        ck(r == n, "%s: read %d of %d: %s" % (w.say(), r, n, L.k_err()), "bubble read")
        w.B = B
    elif op == "num":
        what = src.int(0, 9)
        log.append("b%d number#%d(%s)" % (k, what, key))
        o = (C.c_double * 256)()
        r = L.b_num(p, key, what, o)
        if key not in d["params"]:
            ck(r == -1, "%s: accepted" % w.say(), "number refuse")
            return
        f = d["params"][key][0]
        if f.dt not in TYPES:
            return
        v = [float(x != 0) if what % 5 == 4 else float(x) for x in f.arr().reshape(-1)]
        if what < 5:
            if not v:
                ck(r == -1, "%s: accepted" % w.say(), "number none")
                return
            v = v[:1]
        ck(r == len(v) and list(o[:r]) == v, "%s: %r, expected %r" % (w.say(), list(o[:max(r, 0)]), v), "number")


def proto(src, env):
    L = env.core
    rd = lambda: (src.choice(TYPES), tuple(src.int(0, 9) for _ in range(src.int(0, 5))))
    fs = [rd() for _ in range(src.int(0, 4))]
    prog, desc = [], ["pack(%s)" % " ".join(pstr(*f) for f in fs)]

    def put(f):
        prog.extend([f[0], len(f[1])] + list(f[1]))
    for f in fs:
        put(f)
    nf = len(fs)
    cur = list(fs) or [(fmt.VOID, ())]
    steps = src.int(0, 8)
    for _ in range(steps):
        k = src.int(0, 5)
        prog.append(k)
        if k == 0:
            n = src.int(0, 4)
            prog.append(n)
            cur = (cur + [(fmt.VOID, ())] * 4)[:n] or [(fmt.VOID, ())]
            desc.append("refield %d" % n)
        elif k in (1, 2):
            i = src.int(-len(cur) if k == 1 else 0, len(cur) - 1)
            f = rd()
            prog.append(i)
            put(f)
            cur[i] = f
            desc.append("field(%d) = %s" % (i, pstr(*f)))
        elif k == 5:
            cur = cur[::-1]
            desc.append("reverse")
        else:
            desc.append(("copy", "move")[k - 3])
    d = "; ".join(desc)
    got = L.k_proto_prog(prog, nf, steps)
    ck(got is not None, "%s: %s" % (d, L.k_err()), "proto")
    want = "{%s} %d %d" % (", ".join(pstr(*f) for f in cur), len(cur), len(cur) > 1)
    for i in range(-len(cur), len(cur)):
        want += " %s %d" % (pstr(*cur[i]), fmt.prod(cur[i][1]))
    ck(got == want, "%s: %s, expected %s" % (d, got, want), "proto")
    return {"desc": d, "labels": ["fields %d" % len(cur)], "nt": len(cur) >= 2}


def edit(a, b):
    """the least number of characters to take out of a and put in to get b"""
    prev = list(range(len(b) + 1))
    for i, x in enumerate(a):
        cur = [i + 1]
        for j, y in enumerate(b):
            cur.append(prev[j] if x == y else min(prev[j + 1], cur[j]) + 1)
        prev = cur
    return prev[-1]


def helper(src, env):
    L = env.core
    k = src.choice(["edit", "split", "join", "mem"])
    word = lambda hi=8: "".join(src.choice("abc,; ") for _ in range(src.int(0, hi)))
    if k == "edit":
        a = word(12)
        b = word(12)
        if src.bool(0.5):
            b = list(a)
            for _ in range(src.int(0, 3)):
                i = src.int(0, len(b))
                if src.bool() and b:
                    del b[min(i, len(b) - 1)]
                else:
                    b.insert(i, src.choice("abc"))
            b = "".join(b)
        r = L.h_edit(a, len(a), b, len(b))
        d = "edit_distance(%r, %r) = %d" % (a, b, r)
        ck(r == edit(a, b), "%s, expected %d" % (d, edit(a, b)), "edit distance")
        return {"desc": d, "labels": [k], "nt": len(a) + len(b) >= 2}
    if k == "split":
        a = word(16)
        sep = src.choice([",", ",;", " ", ";, ", "x", ""])
        out = C.create_string_buffer(256)
        n = L.h_split(a, len(a), sep, len(sep), out)
        want, cur = [], ""
        for c in a:
            if c in sep:
                want.append(cur)
                cur = ""
            else:
                cur += c
        want.append(cur)
        got = out.value.decode().split("\x01")
        d = "Split(%r, %r) = %r" % (a, sep, got)
        ck(n == len(want) and got == want, "%s, expected %r" % (d, want), "split")
        return {"desc": d, "labels": [k], "nt": len(a) >= 2}
    if k == "join":
        xs = [word() for _ in range(src.int(0, 6))]
        sep = word(3)
        out = C.create_string_buffer(256)
        arr = (C.c_char_p * max(len(xs), 1))(*[x.encode() for x in xs])
        L.h_join(arr, len(xs), sep, out)
        d = "Join(%r, %r) = %r" % (xs, sep, out.value.decode())
        ck(out.value.decode() == sep.join(xs), d, "join")
        return {"desc": d, "labels": [k], "nt": len(xs) >= 2}
    v = src.weighted([(3, src.int(0, 5000)), (3, src.int(0, 1 << 62)), (3, src.int(1, 1023) << (10 * src.int(0, 5)))])
    r = L.h_mem(v)
    d = "memory_size_string(%d) = %s" % (v, r)
    unit = r.lstrip("0123456789.")
    units = ["B", "KB", "MB", "GB", "TB"]
    ck(unit in units, d, "memory unit")
    u = units.index(unit)
    x = float(r[:-len(unit)])
    ck(abs(x * 1024.0 ** u - v) <= 0.05001 * 1024.0 ** u + 1e-9 * v, "%s is not the size" % d, "memory value")
    ck((u == 0 or v >= 1024 ** u) and (u == 4 or v < 1024 ** (u + 1)), "%s: not the unit" % d, "memory unit")
    return {"desc": d, "labels": [k], "nt": v >= 1024}


TARGETS = {"history": hist, "proto": proto, "helper": helper}
WEIGHTS = {"history": 8, "proto": 1, "helper": 1}
