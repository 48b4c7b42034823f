"""Tensor serialisation: exact bytes, exact values back."""
import ctypes as C
import os
import numpy as np
from tv import fmt, ops, shim
from tv.gen import Violation, Discard
from tv.api import ApiError

ID = "P01"
RULE = ("a tensor of a drawn element type (all types of the format), rank 0-7 (dimensions may be 0), 1-4 fields, built by the "
        "API and turned into a view (slice, range, reshape, field, clone), saved and loaded through files and "
        "streams, several tensors behind each other; non-trivial = at least 2 elements or 2 fields; distinct by content")
CASES = {"quick": 120000, "thorough": 1500000}
SHIMS = ("mod",)
API = [fmt.INT8, fmt.UINT8, fmt.INT16, fmt.UINT16, fmt.INT32, fmt.UINT32, fmt.INT64, fmt.UINT64, fmt.FLOAT32, fmt.FLOAT64,
       fmt.CHAR8]
ALL = sorted(d for d in fmt.BYTES if d not in (fmt.PTR,) and d <= 24)


def setup(libs):
    e = ops.Env(libs)
    e.mod = shim.Mod(libs["mod"])
    e.scratch = os.environ["TV_SCRATCH"]
    return e


def rnd(src, dts):
    dt = src.choice(dts)
    nd = src.weighted([(4, 1), (4, 2), (3, 0), (3, 3), (2, 4), (1, 5), (1, 6), (1, 7)])
    s = src.shape(nd, hi=6, lo=0 if src.bool(0.15) else 1, limit=300)
    n = fmt.prod(s) * fmt.BYTES[dt]
    return fmt.T(dt, s, src.nprng().bytes(n))


def bits(t):
    """rows of a T along dim 0"""
    k = fmt.prod(t.shape[1:]) * fmt.BYTES[t.dtype]
    return [t.data[i * k:(i + 1) * k] for i in range(t.shape[0])]


def build(src, env, hs):
    """(handle, expected fields, how)"""
    t = env.t
    nf = src.weighted([(6, 1), (2, 2), (1, 3), (1, 4)])
    fs = [rnd(src, API) for _ in range(nf)]
    if nf == 1 and src.bool(0.7):
        h = t.new(fs[0])
        how = "plain"
    else:
        h = t.pack(fs)
        how = "packed"
    hs.append(h)
    for _ in range(src.weighted([(4, 0), (4, 1), (2, 2), (1, 3)])):
        f = fs[0]
        k = src.choice(["reshape", "slice", "range", "clone", "field", "pack2"])
        g = None
        if k == "reshape" and len(fs) == 1:
            d = list(f.shape)
            if fmt.prod(d) > 0 and src.bool():
                d = [fmt.prod(d)] if src.bool() else [1] + d if len(d) < 7 else d
            else:
                d = d + [1] if len(d) < 7 else d
            if fmt.prod(d) > 0 and src.bool(0.3):
                d[src.raw(len(d))] = -1
            full = [fmt.prod(f.shape) // max(1, -fmt.prod(d)) if x == -1 else x for x in d]
            g = t.Tensor_reshape(h, C.cast((C.c_int32 * 8)(*d), C.c_void_p), len(d))
            fs = [fmt.T(f.dtype, full, f.data)]
        elif k in ("slice", "range") and len(fs) == 1 and len(f.shape) >= 1 and f.shape[0] > 0 and fmt.prod(f.shape) > 0:
            rows = bits(f)
            i = src.raw(len(rows))
            if k == "slice":
                g = t.Tensor_slice(h, i)
                fs = [fmt.T(f.dtype, f.shape[1:], rows[i])]
            else:
                e = src.int(i + 1, len(rows))
                g = t.Tensor_slice_v2(h, i, e)
                fs = [fmt.T(f.dtype, (e - i,) + f.shape[1:], b"".join(rows[i:e]))]
        elif k == "clone":
            g = t.Tensor_clone(h)
        elif k == "field":
            i = src.raw(len(fs))
            g = t.Tensor_field(h, i)
            fs = [fs[i]]
        elif k == "pack2" and len(fs) < 4:
            o = rnd(src, API)
            oh = t.new(o)
            hs.append(oh)
            if len(fs) == 1:
                g = t.Tensor_pack(C.cast((C.c_void_p * 2)(h, oh), C.c_void_p), 2)
                fs = [fs[0], o]
            else:
                continue
        else:
            continue
        if not g:
            raise Violation(f"{how}.{k} of {fs} failed: {t.err()}")
        hs.append(g)
        h = g
        how += "." + k
    return h, fs, how


def same(got, want, what):
    if len(got) != len(want):
        raise Violation(f"{what}: {len(got)} fields, expected {len(want)}")
    for i, (a, b) in enumerate(zip(got, want)):
        if a != b:
            raise Violation(f"{what}: field {i} is {a}, expected {b}")


def t_api(src, env):
    t = env.t
    hs = []
    path = os.path.join(env.scratch, "t.t")
    try:
        h, fs, how = build(src, env, hs)
        enc = fmt.enc_packed(fs)
        what = f"{how} {fs}"
        same(t.get(h), fs, what)
        data = env.mod.ser(h)
        if data != enc:
            raise Violation(f"{what}: stream holds {data[:40].hex()}.. ({len(data)} bytes), expected {enc[:40].hex()}.. ({len(enc)})")
        if src.bool(0.3):
            if os.path.exists(path):
                os.remove(path)
            if src.bool(0.2):
                open(path, "wb").write(b"x" * 5000)       # an existing longer file is replaced
            if not t.Tensor_save(path.encode(), h):
                raise Violation(f"{what}: save failed: {t.err()}")
            data = open(path, "rb").read()
            if data != enc:
                raise Violation(f"{what}: file holds {data[:40].hex()}.. ({len(data)} bytes), expected {enc[:40].hex()}.. ({len(enc)})")
            g = t.Tensor_load(path.encode())
            same(t.take(g, "load"), fs, what + " loaded")
    finally:
        for x in hs:
            t.free_Tensor(x)
    return {"desc": f"api {how} {fs} #{src.rec[-3:]}", "nt": len(fs) > 1 or fmt.prod(fs[0].shape) > 1,
            "labels": how.split(".") + [fmt.NAMES[f.dtype] for f in fs]}


def t_load(src, env):
    """bytes -> tensor -> bytes, into one tensor object used again and again"""
    t = env.t
    items = []
    for _ in range(src.int(1, 3)):
        k = src.weighted([(6, 1), (2, 2), (1, 3), (1, 5)])
        items.append([rnd(src, ALL) for _ in range(k)])
    enc = [fmt.enc_packed(i) for i in items]
    blob = b"".join(enc) + (src.nprng().bytes(src.int(0, 9)))
    h = t.new(np.zeros(3, np.float32)) if src.bool() else t.pack([np.zeros(1, np.int8), np.ones(2, np.float64)])
    path = os.path.join(env.scratch, "l.t")
    try:
        pos = 0
        for it, e in zip(items, enc):
            n = env.mod.d.tv_tensor_ext(h, blob[pos:], len(blob) - pos)
            if n < 0:
                raise Violation(f"reading {it} failed: {env.mod.err()}")
            if n != len(e):
                raise Violation(f"reading {it} consumed {n} bytes of {len(e)}")
            pos += n
            same(t.get(h), it, f"{it} read from a stream")
            out = env.mod.ser(h)
            if out != e:
                raise Violation(f"{it} written again: {out[:60].hex()} instead of {e[:60].hex()}")
        if src.bool(0.2):
            open(path, "wb").write(enc[0] + b"tail" * src.raw(2))
            same(t.take(t.Tensor_load(path.encode()), "load"), items[0], f"{items[0]} loaded from a file")
    finally:
        t.free_Tensor(h)
    return {"desc": f"load {items} #{src.rec[-3:]}", "nt": any(len(i) > 1 or fmt.prod(i[0].shape) > 1 for i in items),
            "labels": [fmt.NAMES[f.dtype] for i in items for f in i]}


TARGETS = {"api": t_api, "load": t_load}
WEIGHTS = {"api": 2, "load": 1}
