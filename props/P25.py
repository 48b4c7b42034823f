"""Streams return exactly what was written; encrypted files are AES-256 with PKCS#7 padding."""
import ctypes as C
import os
import tempfile
import numpy as np
from tv import fmt, ops, graphgen
from tv.gen import Violation, Discard

ID = "P25"
RULE = ("bytes, modules and tensors written in generated chunks to encrypted files, files and string streams with generated keys, and read back in other chunks; "
        "encrypted files cut, damaged, or read with another key; writes to a full device; operation sequences on string streams; the AES modes block by block - "
        "against an independent AES and byte-string models; non-trivial = at least one byte transferred; distinct by operations and data")
CASES = {"quick": 16000, "thorough": 500000}
VARIANTS = ("rel", "asan")
SHIMS = ("enc",)
WEIGHTS = {"enc": 5, "bad": 4, "full": 2, "strings": 4, "files": 3, "aes": 4, "things": 2}
CASE_TIMEOUT = 20
P = C.c_void_p
PADKEY = bytes.fromhex("603deb1015ca71be2b73aef0857d77811f352c073b6108d72d9810a30914dff4")
PADIV = bytes(range(0xf0, 0x100))


# ------------------------------------------------------------- reference AES-256
def _tables():
    sb, p, q = [0] * 256, 1, 1
    while True:
        p = p ^ ((p << 1) & 0xff) ^ (0x1b if p & 0x80 else 0)
        q ^= q << 1
        q ^= q << 2
        q ^= q << 4
        q &= 0xff
        if q & 0x80:
            q ^= 9
        rot = lambda v, n: ((v << n) | (v >> (8 - n))) & 0xff
        sb[p] = q ^ rot(q, 1) ^ rot(q, 2) ^ rot(q, 3) ^ rot(q, 4) ^ 0x63
        if p == 1:
            break
    sb[0] = 0x63
    return np.asarray(sb, np.uint8)


SB = _tables()
IS = np.argsort(SB).astype(np.uint8)


def _mul(k):
    out = np.zeros(256, np.uint8)
    for v in range(256):
        r, a, b = 0, v, k
        while b:
            if b & 1:
                r ^= a
            a = ((a << 1) ^ (0x11b if a & 0x80 else 0)) & 0x1ff
            b >>= 1
        out[v] = r
    return out


M = {k: _mul(k) for k in (2, 3, 9, 11, 13, 14)}
SHIFT = [(i + 4 * (i % 4)) % 16 for i in range(16)]      # position i takes byte SHIFT[i] (column-major state)
UNSHIFT = [SHIFT.index(i) for i in range(16)]


def expand(key):
    key = (key[:32] + PADKEY[len(key):])[:32]
    w = [np.frombuffer(key[4 * i:4 * i + 4], np.uint8).copy() for i in range(8)]
    rc = 1
    for i in range(8, 60):
        t = w[-1].copy()
        if i % 8 == 0:
            t = SB[np.roll(t, -1)]
            t[0] ^= rc
            rc = int(M[2][rc])
        elif i % 8 == 4:
            t = SB[t]
        w.append(w[i - 8] ^ t)
    return np.concatenate(w).reshape(15, 16)


def _mix(s, c):
    s = s.reshape(-1, 4, 4)
    g = lambda k, v: M[k][v] if k > 1 else v
    return np.stack([g(c[0], s[:, :, i]) ^ g(c[1], s[:, :, (i + 1) % 4]) ^ g(c[2], s[:, :, (i + 2) % 4]) ^ g(c[3], s[:, :, (i + 3) % 4])
                     for i in range(4)], 2).reshape(-1, 16)


def ecb(rk, b, enc):
    if not b:
        return b
    s = np.frombuffer(b, np.uint8).reshape(-1, 16)
    if enc:
        s = s ^ rk[0]
        for r in range(1, 14):
            s = _mix(SB[s][:, SHIFT], (2, 3, 1, 1)) ^ rk[r]
        return (SB[s][:, SHIFT] ^ rk[14]).tobytes()
    s = s ^ rk[14]
    for r in range(13, 0, -1):
        s = _mix(IS[s[:, UNSHIFT]] ^ rk[r], (14, 11, 13, 9))
    return (IS[s[:, UNSHIFT]] ^ rk[0]).tobytes()


def xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


def pad(b):
    n = 16 - len(b) % 16
    return b + bytes([n]) * n


# ------------------------------------------------------------- environment
def setup(libs):
    env = ops.Env(libs)
    d = env.d = C.CDLL(libs["enc"])
    L, I, S = C.c_int64, C.c_int, C.c_char_p
    for n, a, r in (("tv_err", [], S), ("tv_buf", [], P), ("tv_r_new", [I, S, S, L], P), ("tv_r_open", [P], L), ("tv_r_read", [P, P, L], L), ("tv_r_rewind", [P], L),
                    ("tv_r_close", [P], L), ("tv_r_free", [P], None), ("tv_r_module", [P], P), ("tv_r_tensor", [P], P), ("tv_w_new", [I, S, S, L], P), ("tv_w_open", [P], L),
                    ("tv_w_write", [P, S, L], L), ("tv_w_close", [P], L), ("tv_w_free", [P], None), ("tv_w_module", [P, P], L), ("tv_w_tensor", [P, P], L),
                    ("tv_module_save_path", [P, S], L), ("tv_s_new", [I, S, L], P), ("tv_s_read", [P, P, L], L), ("tv_s_write", [P, S, L], L), ("tv_s_set", [P, S, L], L),
                    ("tv_s_get", [P], L), ("tv_s_clear", [P], L), ("tv_s_free", [P], None), ("tv_aes_new", [S, C.c_uint32, S, C.c_int32], P), ("tv_aes_iv", [P, S], None),
                    ("tv_aes_run", [P, I, P, C.c_uint32], None), ("tv_aes_free", [P], None)):
        f = getattr(d, n)
        f.argtypes, f.restype = a, r
    env.tmp = tempfile.mkdtemp()
    env.n = 0
    return env


def path(env):
    env.n += 1
    p = os.path.join(env.tmp, f"f{env.n % 8}")
    if os.path.exists(p):
        os.unlink(p)
    return p


def gen_key(src):
    n = src.weighted([(2, 32), (2, src.int(0, 31)), (1, src.int(33, 40)), (1, 0)])
    return bytes(src.int(0, 255) for _ in range(min(n, 3))) + src.nprng().bytes(max(n - 3, 0))


def gen_data(src, lim=200):
    n = src.weighted([(3, src.int(0, 40)), (3, 16 * src.int(0, 6)), (2, src.int(0, lim)), (1, src.int(0, 30 * lim))])
    k = src.choice(["random", "zeros", "padding"])
    if k == "random":
        return src.nprng().bytes(n)
    return bytes([0 if k == "zeros" else src.int(1, 17)]) * n


def chunks(src, n):
    out = []
    while n > 0 and len(out) < 60:
        k = min(n, src.weighted([(2, src.int(1, 40)), (2, 16), (1, 1), (2, src.int(1, max(n, 1))), (1, 0)]))
        out.append(k)
        n -= k
    if n > 0:
        out.append(n)
    return out


class R:
    def __init__(self, env, kind, p, key=b""):
        self.d, self.h = env.d, env.d.tv_r_new(kind, p.encode(), key, len(key))
        if not self.h:
            raise Violation("cannot make a reader: " + env.d.tv_err().decode("latin1"))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.d.tv_r_free(self.h)

    def read(self, n):
        """bytes, or None on an error"""
        b = (C.c_char * (n + 1))()
        C.memset(b, 0xA5, n + 1)
        k = self.d.tv_r_read(self.h, C.cast(b, P), n)
        if b.raw[n:n + 1] != b"\xa5":
            raise Violation(f"a read of {n} bytes wrote beyond the buffer")
        if k < 0:
            return None
        if k > n:
            raise Violation(f"a read of {n} bytes returned {k}")
        return b.raw[:k]


def check_read(src, r, want, what, end_error=True):
    """read in chunks: everything, then nothing more"""
    pos = 0
    for _ in range(400):
        n = src.weighted([(2, src.int(1, 40)), (2, 16), (1, 1), (2, src.int(1, len(want) + 20)), (1, 0)])
        if src.raw(400) == 399:
            n = len(want) + 1
        got = r.read(n)
        left = want[pos:pos + n]
        if got is None:
            if left or n == 0:
                raise Violation(f"{what}: a read of {n} bytes at {pos} of {len(want)} failed: {r.d.tv_err().decode('latin1')}")
            return
        if got != left:
            i = next((j for j in range(min(len(got), len(left))) if got[j] != left[j]), min(len(got), len(left)))
            raise Violation(f"{what}: a read of {n} bytes at {pos} of {len(want)} returned {len(got)} bytes, expected {len(left)}, first difference at {i}")
        pos += len(got)
        if n and not left:
            return
    return


def write_all(env, src, kind, p, data, key, what):
    h = env.d.tv_w_new(kind, p.encode(), key, len(key))
    try:
        if env.d.tv_w_open(h) != 1:
            raise Violation(f"{what}: not open")
        pos = 0
        cs = chunks(src, len(data))
        for n in cs:
            k = env.d.tv_w_write(h, data[pos:pos + n], n)
            if k != n:
                raise Violation(f"{what}: a write of {n} bytes returned {k}")
            pos += n
        if src.bool(0.7):
            if env.d.tv_w_close(h) != 0:
                raise Violation(f"{what}: close failed: {env.d.tv_err().decode('latin1')}")
            if env.d.tv_w_open(h) != 0:
                raise Violation(f"{what}: open after close")
    finally:
        env.d.tv_w_free(h)
    return cs


# ------------------------------------------------------------- targets
def t_enc(src, env):
    key, data = gen_key(src), gen_data(src)
    p = path(env)
    what = f"encrypted file of {len(data)} bytes, key of {len(key)}"
    cs = write_all(env, src, 0, p, data, key, what)
    raw = open(p, "rb").read()
    want = ecb(expand(key), pad(data), True)
    if raw != want:
        i = next((j for j in range(min(len(raw), len(want))) if raw[j] != want[j]), min(len(raw), len(want)))
        raise Violation(f"{what}: file of {len(raw)} bytes is not AES-256-ECB with PKCS#7 padding ({len(want)} bytes), first difference at {i} (written as {cs[:20]})")
    for _ in range(src.int(1, 2)):
        with R(env, 0, p, key[:32] if src.bool(0.3) else key) as r:
            if env.d.tv_r_open(r.h) != 1:
                raise Violation(f"{what}: reader not open")
            check_read(src, r, data, what)
    return {"desc": f"{what} chunks {cs[:12]}", "labels": ["encrypted file", f"mod16={'0' if len(data) % 16 == 0 else 'x'}", "key<32" if len(key) < 32 else "key>=32"], "nt": len(data) > 0}


def t_bad(src, env):
    """whatever the file, the reader returns a prefix of what it decrypts to, within bounds"""
    key, data = gen_key(src), gen_data(src)
    k = src.choice(["cut", "cut16", "flip", "end", "key", "foreign", "empty", "missing"])
    p = path(env)
    raw = bytearray(ecb(expand(key), pad(data), True))
    rk = key
    if k == "cut":
        del raw[src.raw(len(raw)):]
    elif k == "cut16":
        del raw[16 * src.raw(len(raw) // 16):]
    elif k == "flip":
        raw[src.raw(len(raw))] ^= 1 << src.raw(8)
    elif k == "end":        # a correctly encrypted file with another padding
        raw = bytearray(ecb(expand(key), data[:len(data) // 16 * 16] + src.nprng().bytes(15) + bytes([src.choice([0, 1, 2, 15, 16, 17, 32, 127, 128, 255])]), True))
    elif k == "key":
        rk = gen_key(src)
    elif k == "foreign":
        raw = bytearray(src.nprng().bytes(src.int(0, 70)))
    elif k == "empty":
        raw = bytearray()
    raw = bytes(raw)
    if k != "missing":
        with open(p, "wb") as f:
            f.write(raw)
    what = f"{k}: encrypted file of {len(raw)} bytes"
    D = ecb(expand(rk), raw[:len(raw) // 16 * 16], False)
    bad = k == "missing" or len(raw) % 16 != 0
    if not bad and D:
        n = D[-1]
        bad = not 1 <= n <= 16
        ok = D[:-16] if bad else D[:-n]
    else:
        ok = D
    with R(env, 0, p, rk) as r:
        if env.d.tv_r_open(r.h) != (0 if k == "missing" else 1):
            raise Violation(f"{what}: is_open {env.d.tv_r_open(r.h)}")
        if not bad:
            check_read(src, r, ok, what)
        else:
            pos, failed = 0, False
            for _ in range(100):
                n = src.weighted([(2, src.int(1, 40)), (2, 16), (2, len(raw) + 20)])
                got = r.read(n)
                if got is None:
                    failed = True
                    break
                if got != D[pos:pos + len(got)] or pos + len(got) > len(ok):
                    raise Violation(f"{what}: returned {len(got)} bytes at {pos} that are not those of the file")
                pos += len(got)
                if len(got) < n:
                    raise Violation(f"{what}: ended at {pos} without an error")
            else:
                raise Violation(f"{what}: no error")
    return {"desc": what + f" key {len(rk)} #{src.rec[-2:]}", "labels": ["damaged: " + k, "refused" if bad else "readable"], "nt": True}


def t_full(src, env):
    """a file that cannot be written is reported"""
    kind = src.choice(["encrypted", "plain", "module", "tensor"])
    where = src.choice(["full", "nowhere", "directory"])
    p = {"full": "/dev/full", "nowhere": os.path.join(env.tmp, "no", "file"), "directory": env.tmp}[where]
    n = src.weighted([(3, src.int(1, 40)), (1, src.int(1, 30000)), (1, src.choice([8190, 8191, 8192, 8176, 8160]))])
    what = f"{kind} to {where}, {n} bytes"
    data = bytes(n)
    if kind in ("encrypted", "plain"):
        h = env.d.tv_w_new(int(kind == "plain"), p.encode(), b"key", 3)
        try:
            op = env.d.tv_w_open(h)
            if op != (where == "full"):
                raise Violation(f"{what}: is_open {op}")
            ok, pos = True, 0
            for c in chunks(src, n):
                k = env.d.tv_w_write(h, data[pos:pos + c], c)
                if k not in (c, 0, -1):
                    raise Violation(f"{what}: a write of {c} bytes returned {k}")
                if c and k != c:
                    ok = False
                pos += c
            closed = src.bool(0.7)
            if closed and env.d.tv_w_close(h) != 0:
                ok = False
            if ok and (closed or (op == 0 and kind == "plain")):
                raise Violation(f"{what}: no write failed")
        finally:
            env.d.tv_w_free(h)
    elif kind == "module":
        x = fmt.param("x")
        m = env.t.module(fmt.enc_module([x], [fmt.Node("add", [x, fmt.const(np.zeros(n, np.uint8), "c")], "y")]))
        r = env.d.tv_module_save_path(m, p.encode())
        env.t.free_Module(m)
        if r == 0:
            raise Violation(f"{what}: Module::Save reported success")
    else:
        t = env.t.new(np.zeros(n, np.uint8))
        r = env.t.Tensor_save(p.encode(), t)
        env.t.free_Tensor(t)
        if r:
            raise Violation(f"{what}: ts_Tensor_save reported success")
    return {"desc": what + f" #{src.rec[-3:]}", "labels": [f"{kind} to {where}"], "nt": True}


def t_strings(src, env):
    kind = src.choice(["reader", "writer", "both"])
    d = env.d
    init = gen_data(src, 60) if src.bool(0.5) and kind == "reader" else None
    h = d.tv_s_new(["reader", "writer", "both"].index(kind), init or b"", -1 if init is None else len(init))
    buf, pos, log, moved, ended = bytearray(init or b""), 0, [], 0, False
    try:
        for _ in range(src.size(1, 14)):
            k = src.choice({"reader": ["read", "read", "read", "set", "clear", "get"], "writer": ["write", "write", "set", "clear", "get"],
                            "both": ["write", "write", "read", "read", "clear", "get"]}[kind])
            if k == "read":
                n = src.weighted([(3, src.int(0, 20)), (1, len(buf) - pos), (1, len(buf) + 5)])
                b = (C.c_char * (n + 1))()
                C.memset(b, 0xA5, n + 1)
                g = d.tv_s_read(h, C.cast(b, P), n)
                want = bytes(buf[pos:pos + n])
                if g != len(want) or b.raw[:max(g, 0)] != want or b.raw[n:n + 1] != b"\xa5":
                    raise Violation(f"string {kind} {log}: read({n}) returned {g} {b.raw[:max(g, 0)][:20]}, expected {len(want)} {want[:20]}")
                pos += len(want)
                moved += len(want)
                ended |= len(want) < n
            elif k == "write":
                b = gen_data(src, 40)
                g = d.tv_s_write(h, b, len(b))
                if g != len(b) and not (ended and g == 0):
                    raise Violation(f"string {kind} {log}: write({len(b)}) returned {g}")
                if g:
                    buf += b
                    moved += g
                log.append(len(b))
            elif k == "set":
                b = gen_data(src, 40)
                d.tv_s_set(h, b, len(b))
                buf, pos, ended = bytearray(b), 0, False
                if kind == "writer":        # where the next write goes is not specified
                    g = d.tv_s_get(h)
                    if C.string_at(d.tv_buf(), max(g, 0)) != bytes(buf):
                        raise Violation(f"string writer {log}: after str(b) the contents are {g} bytes, expected the {len(buf)} of b")
                    d.tv_s_clear(h)
                    buf = bytearray()
            elif k == "clear":
                d.tv_s_clear(h)
                buf, pos, ended = bytearray(), 0, False
            if k == "get":
                g = d.tv_s_get(h)
                if C.string_at(d.tv_buf(), max(g, 0)) != bytes(buf):
                    raise Violation(f"string {kind} {log}: str() has {g} bytes, expected {len(buf)}: {C.string_at(d.tv_buf(), max(g, 0))[:40]} / {bytes(buf)[:40]}")
            log.append(k)
    finally:
        d.tv_s_free(h)
    return {"desc": f"string {kind} {log} #{src.rec[-4:]}", "labels": ["string " + kind] + ["past the end"] * ended, "nt": moved > 0}


def t_files(src, env):
    data, p = gen_data(src), path(env)
    what = f"file of {len(data)} bytes"
    write_all(env, src, 1, p, data, b"", what)
    if open(p, "rb").read() != data:
        raise Violation(f"{what}: contents differ from what was written")
    kind = src.choice([1, 2])
    rew = 0
    with R(env, kind, p) as r:
        for _ in range(src.int(1, 4) if kind == 2 else 1):
            if src.bool(0.4):
                n = src.int(0, len(data) + 4)
                if r.read(n) != data[:n]:
                    raise Violation(f"{what}: the first {n} bytes differ after {rew} rewinds")
            else:
                check_read(src, r, data, f"{what} after {rew} rewinds")
            if kind == 2:
                env.d.tv_r_rewind(r.h)
                rew += 1
    return {"desc": f"{what} kind {kind} rewinds {rew} #{src.rec[-3:]}", "labels": ["file"] + ["rewind"] * (rew > 0), "nt": len(data) > 0}


def t_aes(src, env):
    d, key = env.d, gen_key(src)
    rk = expand(key)
    mode = src.choice(["ecb", "cbc", "ctr"])
    n = src.weighted([(1, -2), (2, -1), (1, 0), (2, 16), (1, src.int(1, 20))]) if mode == "ecb" else src.weighted([(2, -1), (1, 0), (2, 16), (1, src.int(1, 20))])
    iv = src.nprng().bytes(max(n, 0))
    if mode == "ctr" and n == 16 and src.bool():
        iv = iv[:src.raw(16)] + b"\xff" * 16
        iv = iv[:15] + bytes([255 - src.int(0, 3)])
    civ = (iv[:16] + PADIV[len(iv):])[:16]
    h = d.tv_aes_new(key, len(key), iv, n)
    what = f"{mode} key {key.hex()} iv {iv.hex() if n >= 0 else n}"
    tot = 0
    try:
        for _ in range(src.int(1, 3)):
            if mode != "ecb" and src.bool(0.2):
                civ = src.nprng().bytes(16)
                d.tv_aes_iv(h, civ)
            size = 16 if mode == "ecb" else 16 * src.int(0, 4) if mode == "cbc" else src.int(0, 70)
            b = src.nprng().bytes(size)
            buf = C.create_string_buffer(b, size + 1)
            buf[size] = b"\xa5"
            enc = src.bool()
            d.tv_aes_run(h, {"ecb": 0, "cbc": 2, "ctr": 4}[mode] + (mode != "ctr" and not enc), C.cast(buf, P), size)
            if mode == "ecb":
                want = ecb(rk, b, enc)
            elif mode == "cbc":
                want = b""
                for i in range(0, size, 16):
                    q = b[i:i + 16]
                    if enc:
                        civ = ecb(rk, xor(q, civ), True)
                        want += civ
                    else:
                        want += xor(ecb(rk, q, False), civ)
                        civ = q
            else:
                want = b""
                for i in range(0, size, 16):
                    want += xor(b[i:i + 16], ecb(rk, civ, True))
                    civ = ((int.from_bytes(civ, "big") + 1) % (1 << 128)).to_bytes(16, "big")
            got = buf.raw[:size]
            if got != want or buf.raw[size:size + 1] != b"\xa5":
                raise Violation(f"{what}: {'encrypt' if enc else 'decrypt'} of {b.hex()} gave {got.hex()}, expected {want.hex()}")
            tot += size
    finally:
        d.tv_aes_free(h)
    return {"desc": f"{what} {tot} bytes", "labels": ["AES-" + mode, "no iv" if n < 0 else "iv"], "nt": tot > 0}


def t_things(src, env):
    """modules and tensors through an encrypted or plain file"""
    d, t = env.d, env.t
    kind, key, p = src.choice([0, 0, 1]), gen_key(src), path(env)
    mod = src.bool()
    if mod:
        g = graphgen.gen(src, 6)
        h = t.module(g.encode())
        what = f"module {g.describe()[:120]}"
    else:
        x = src.nprng().integers(0, 100, src.shape(src.int(0, 4), 6)).astype(src.choice([np.uint8, np.int32, np.float32, np.float64]))
        h = t.new(x)
        what = f"tensor {x.shape} {x.dtype}"
    what += [" encrypted", " plain"][kind]
    w = d.tv_w_new(kind, p.encode(), key, len(key))
    rc = (d.tv_w_module if mod else d.tv_w_tensor)(w, h)
    c = d.tv_w_close(w)
    d.tv_w_free(w)
    if rc or c:
        raise Violation(f"{what}: not saved: {d.tv_err().decode('latin1')}")
    with R(env, kind, p, key) as r:
        k = (d.tv_r_module if mod else d.tv_r_tensor)(r.h)
        if not k:
            raise Violation(f"{what}: not loaded: {d.tv_err().decode('latin1')}")
        rest = r.read(1)
        if rest:
            raise Violation(f"{what}: bytes left after loading")
    if mod:
        q = path(env)
        for v in (h, k):
            if d.tv_module_save_path(v, q.encode()):
                raise Violation(f"{what}: not saved: {d.tv_err().decode('latin1')}")
            b = open(q, "rb").read()
            if v == h:
                first = b
        from tv import shim
        if shim.canon(first) != shim.canon(b):
            raise Violation(f"{what}: another module after the round trip")
        t.free_Module(h)
        t.free_Module(k)
    else:
        y = t.take(k)[0].np() if hasattr(t, "take") else None
        if y.shape != x.shape or y.dtype != x.dtype or not np.array_equal(x, y):
            raise Violation(f"{what}: became {y.shape} {y.dtype}")
        t.free_Tensor(h)
    return {"desc": what + f" #{src.rec[-2:]}", "labels": ["module" if mod else "tensor", ["encrypted", "plain"][kind]], "nt": True}


TARGETS = {"enc": t_enc, "bad": t_bad, "full": t_full, "strings": t_strings, "files": t_files, "aes": t_aes, "things": t_things}
