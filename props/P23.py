"""Tensor handles: model-based histories of ts_*Tensor* calls."""
import ctypes as C
import os
import shutil
import tempfile
import numpy as np
from tv import fmt, ops, api
from tv.gen import Violation, Discard
from tv.api import ApiError

ID = "P23"
RULE = ("histories of 3-40 calls creating, writing, cloning, casting, reshaping, packing, taking fields and slices, moving, saving, loading and "
        "freeing tensors of 10 types, also with arguments that must be refused; after each call every live handle is compared "
        "with a model of values and shared storage; non-trivial = at least 5 calls of which 2 made a tensor from another; distinct by calls")
CASES = {"quick": 12000, "thorough": 300000}
VARIANTS = ("rel", "asan")

DT = [np.float32, np.int32, np.uint8, np.int8, np.int16, np.uint16, np.uint32, np.int64, np.uint64, np.float64]


def setup(libs):
    return ops.Env(libs)


class Buf:
    """storage; owners = handles that keep it alive (slices do not)"""

    def __init__(self, data, frozen=False):
        self.data, self.owners, self.frozen = bytearray(data), 0, frozen


class F:
    """one field: bytes [off, off+n) of a buffer"""
    __slots__ = ("buf", "off", "dt", "shape", "weak")

    def __init__(self, buf, off, dt, shape, weak=False):
        self.buf, self.off, self.dt, self.shape, self.weak = buf, off, np.dtype(dt), tuple(shape), weak

    def n(self):
        return fmt.prod(self.shape)

    def bytes(self):
        return bytes(self.buf.data[self.off:self.off + self.n() * self.dt.itemsize])

    def like(self, **k):
        d = dict(buf=self.buf, off=self.off, dt=self.dt, shape=self.shape, weak=self.weak)
        d.update(k)
        return F(**d)


class H:
    def __init__(self, h, fields, name):
        self.h, self.f, self.name = h, fields, name
        for f in fields:
            if not f.weak:
                f.buf.owners += 1


def t_handles(src, env):
    t = env.t
    live, log = [], []
    wb = None
    tmp = None
    made = refused = 0
    seq = [0]

    def shp():
        return src.weighted([(6, src.shape(src.int(1, 4), hi=5, limit=120)), (2, src.shape(src.int(0, 7), hi=3, limit=60)),
                             (1, (0,)), (1, (2, 0, 3)), (1, (src.int(1, 40),))])

    def arr(dt, s):
        if np.dtype(dt).kind == "f":
            return np.asarray(src.iarray(s, np.int16, -100, 100), dt).reshape(s)
        return src.iarray(s, dt, -100 if np.dtype(dt).kind == "i" else 0, 100)

    def ptr(s):
        return C.cast((api.I32 * max(1, len(s)))(*s), api.P)

    def add(h, fields, what):
        nonlocal made
        if not h:
            raise Violation(f"{what} failed: {t.err()!r} after {log}")
        if t.err():
            raise Violation(f"{what} succeeded and left the message {t.err()!r}")
        seq[0] += 1
        live.append(H(h, fields, f"t{seq[0]}"))
        log.append(f"{live[-1].name}={what}")
        made += 1

    def refuse(h, what):
        nonlocal refused
        if h:
            raise Violation(f"{what} was accepted after {log}")
        if not t.err():
            raise Violation(f"{what} failed without a message after {log}")
        refused += 1
        log.append(what + " refused")

    def usable(x):
        return all(f.buf.owners > 0 for f in x.f)

    def check():
        for x in live:
            if not usable(x):
                continue
            k = t.Tensor_fields_count(x.h)
            if k != len(x.f) or bool(t.Tensor_packed(x.h)) != (k > 1):
                raise Violation(f"{x.name}: {k} fields, packed {t.Tensor_packed(x.h)}, expected {len(x.f)} after {log}")
            for i, f in enumerate(x.f):
                if k == 1:
                    got = t.peek(x.h)
                else:
                    fh = t.Tensor_field(x.h, i)
                    if not fh:
                        raise Violation(f"{x.name} field {i}: {t.err()!r} after {log}")
                    got = t.peek(fh)
                    t.free_Tensor(fh)
                want = fmt.T(fmt.ID[f.dt], f.shape, f.bytes())
                if got != want:
                    raise Violation(f"{x.name} field {i} is {got!r}, expected {want!r} after {log}")

    def free(x):
        log.append(f"free {x.name}")
        t.free_Tensor(x.h)
        for f in x.f:
            if not f.weak:
                f.buf.owners -= 1
        live.remove(x)

    try:
        steps = src.int(3, src.choice([8, 20, 40]))
        for _ in range(steps):
            ok = [x for x in live if usable(x)]
            act = src.weighted([(5, "new"), (4, "write"), (4, "clone"), (3, "cast"), (4, "reshape"), (3, "pack"), (3, "field"), (3, "slice"),
                                (3, "slice2"), (4, "free"), (2, "sync"), (1, "flow"), (2, "file"), (3, "bad"), (1, "newflow")]) if live else "new"
            if act in ("write", "clone", "cast", "reshape", "pack", "field", "slice", "slice2", "sync", "flow", "file", "bad") and not ok:
                act = "new" if len(live) < 12 else "free"
            if len(live) >= 14:
                act = "free"
            x = src.choice(ok) if ok else None
            if act in ("new", "newflow"):
                dt, s = src.choice(DT), shp()
                a = arr(dt, s)
                buf = C.create_string_buffer(a.tobytes(), max(1, a.nbytes))
                late = src.bool(0.3)
                if act == "new":
                    h = t.new_Tensor(ptr(s) if s or src.bool() else None, len(s), fmt.ID[a.dtype], None if late else C.cast(buf, api.P))
                else:
                    if wb is None:
                        wb = t.new_Workbench(t.cpup)
                        if not wb or not t.Workbench_setup_context(wb):
                            raise ApiError("workbench: " + t.err())
                    h = t.new_Tensor_in_flow(src.int(0, 1), ptr(s), len(s), fmt.ID[a.dtype], None if late else C.cast(buf, api.P))
                if h and late and a.nbytes:
                    C.memmove(t.Tensor_data(h), a.tobytes(), a.nbytes)
                C.memset(buf, 0xEE, len(buf))       # the data were copied
                add(h, [F(Buf(a.tobytes()), 0, dt, s)], f"{act} {np.dtype(dt).name}{list(s)}")
            elif act == "write":
                f = x.f[0]
                if f.n() == 0 or f.buf.frozen:
                    continue
                i = src.raw(f.n())
                v = np.asarray(src.int(0, 99)).astype(f.dt).tobytes()
                C.memmove(t.Tensor_data(x.h) + i * f.dt.itemsize, v, len(v))
                f.buf.data[f.off + i * f.dt.itemsize:f.off + (i + 1) * f.dt.itemsize] = v
                log.append(f"write {x.name}[{i}]")
            elif act == "clone":
                add(t.Tensor_clone(x.h), [F(Buf(f.bytes()), 0, f.dt, f.shape) for f in x.f], f"clone {x.name}")
            elif act == "cast":
                f = x.f[0]
                if len(x.f) > 1:
                    continue
                dt = src.choice(DT)
                if dt == f.dt:
                    f.buf.frozen = True             # whether storage is shared then is not specified
                    new = f.like()
                else:
                    a = np.frombuffer(f.bytes(), f.dt)
                    if a.dtype.kind == "f" and np.dtype(dt).kind == "u" and (a < 0).any():
                        continue
                    if a.dtype.kind == "f" and np.dtype(dt).itemsize == 1 and (np.abs(a) > 120).any():
                        continue
                    new = F(Buf(a.astype(dt).tobytes()), 0, dt, f.shape)
                add(t.Tensor_cast(x.h, fmt.ID[np.dtype(dt)]), [new], f"cast {x.name} {np.dtype(dt).name}")
            elif act == "reshape":
                f = x.f[0]
                n = f.n()
                fs, left = [], n
                if n:
                    for p in (2, 3, 5, 7):
                        while left % p == 0 and left > 1 and len(fs) < 6:
                            fs.append(p)
                            left //= p
                    fs.append(left)
                    for _ in range(src.int(0, max(0, len(fs) - 1))):
                        i = src.raw(len(fs) - 1)
                        fs[i:i + 2] = [fs[i] * fs[i + 1]]
                    if src.bool(0.3) and len(fs) < 7:
                        fs.insert(src.raw(len(fs) + 1), 1)
                    if n == 1 and src.bool(0.3):
                        fs = []
                else:
                    fs = src.choice([[0], [0, 4], [3, 0, 2]])
                arg = list(fs)
                if n and fs and src.bool(0.4):
                    arg[src.raw(len(fs))] = src.choice([-1, -1, -3])
                add(t.Tensor_reshape(x.h, ptr(arg), len(arg)), [f.like(shape=fs)] + x.f[1:], f"reshape {x.name} {arg}")
            elif act == "pack":
                # the fields packed are single tensors, as operators do it
                xs = [y for y in (src.choice(ok) for _ in range(src.int(1, 4))) if len(y.f) == 1]
                if not xs:
                    continue
                hs = (api.P * len(xs))(*[y.h for y in xs])
                add(t.Tensor_pack(C.cast(hs, api.P), len(xs)), [y.f[0] for y in xs], f"pack {[y.name for y in xs]}")
            elif act == "field":
                i = src.raw(len(x.f))
                add(t.Tensor_field(x.h, i), [x.f[i]], f"field {x.name} {i}")
            elif act in ("slice", "slice2"):
                f = x.f[0]
                if not f.shape or f.shape[0] == 0:
                    continue
                w = fmt.prod(f.shape[1:]) * f.dt.itemsize
                i = src.raw(f.shape[0])
                if act == "slice":
                    add(t.Tensor_slice(x.h, i), [F(f.buf, f.off + i * w, f.dt, f.shape[1:], True)], f"slice {x.name} {i}")
                else:
                    e = src.int(i + 1, f.shape[0])
                    add(t.Tensor_slice_v2(x.h, i, e), [F(f.buf, f.off + i * w, f.dt, (e - i,) + f.shape[1:], True)],
                        f"slice {x.name} {i}:{e}")
            elif act == "sync":
                if not t.Tensor_sync_cpu(x.h):
                    raise Violation(f"sync_cpu {x.name}: {t.err()!r} after {log}")
                log.append(f"sync {x.name}")
            elif act == "flow":
                if wb is None:
                    wb = t.new_Workbench(t.cpup)
                    if not wb or not t.Workbench_setup_context(wb):
                        raise ApiError("workbench: " + t.err())
                for f in x.f:
                    f.buf.frozen = True
                add(t.Tensor_view_in_flow(x.h, src.int(0, 1)), [f.like() for f in x.f], f"view_in_flow {x.name}")
            elif act == "file":
                tmp = tmp or tempfile.mkdtemp()
                p = os.path.join(tmp, "x").encode()
                if not t.Tensor_save(p, x.h):
                    raise Violation(f"save {x.name}: {t.err()!r}")
                add(t.Tensor_load(p), [F(Buf(f.bytes()), 0, f.dt, f.shape) for f in x.f], f"load (save {x.name})")
            elif act == "free":
                free(src.choice(live))
            else:
                f = x.f[0]
                k = src.choice(["field", "slice", "slice2", "reshape", "reshape2", "dtype", "shape", "load", "save", "big"])
                if k == "field":
                    i = src.choice([-1, len(x.f), len(x.f) + 5, -9, 2 ** 31 - 1, -2 ** 31])
                    refuse(t.Tensor_field(x.h, i), f"field {x.name} {i}")
                elif k == "slice":
                    n = f.shape[0] if f.shape else 0
                    i = src.choice([n, -1, n + 7, 2 ** 31 - 1, -2 ** 31])
                    refuse(t.Tensor_slice(x.h, i), f"slice {x.name}{list(f.shape)} {i}")
                elif k == "slice2":
                    n = f.shape[0] if f.shape else 0
                    b, e = src.choice([(0, n + 1), (-1, n), (n, n + 1), (1, 1), (2, 1), (0, 2 ** 31 - 1), (-2 ** 31, 0), (-2, -1)])
                    refuse(t.Tensor_slice_v2(x.h, b, e), f"slice {x.name}{list(f.shape)} {b}:{e}")
                elif k == "reshape":
                    s = src.choice([[f.n() + 1], [-1, -1], [2, -1, -1], [f.n() + 1, -1] if f.n() else [3, 5]])
                    refuse(t.Tensor_reshape(x.h, ptr(s), len(s)), f"reshape {x.name}{list(f.shape)} {s}")
                elif k == "reshape2":
                    s = src.choice([[0, -1], [-1, 0, 3]])
                    if f.n():
                        refuse(t.Tensor_reshape(x.h, ptr(s), len(s)), f"reshape {x.name}{list(f.shape)} {s}")
                elif k == "dtype":
                    d = src.choice([0, 12, 16, 20, 99, -1])
                    refuse(t.Tensor_cast(x.h, d), f"cast {x.name} to type {d}")
                elif k == "shape":
                    s = src.choice([[-1], [2, -3], [-2, -3]])
                    refuse(t.new_Tensor(ptr(s), len(s), 10, None), f"new {s}")
                elif k == "big":
                    s = src.choice([[65536, 65536], [2 ** 31 - 1, 2], [2 ** 30, 8]])
                    refuse(t.new_Tensor(ptr(s), len(s), src.choice([2, 10]), None), f"new {s}")
                elif k == "load":
                    tmp = tmp or tempfile.mkdtemp()
                    refuse(t.Tensor_load(os.path.join(tmp, "no", "x").encode()), "load of a missing file")
                else:
                    tmp = tmp or tempfile.mkdtemp()
                    refuse(t.Tensor_save(os.path.join(tmp, "no", "x").encode(), x.h), "save into a missing directory")
            check()
        while live:
            free(live[src.raw(len(live))])
            check()
    finally:
        for x in list(live):
            t.free_Tensor(x.h)
        if wb:
            t.free_Workbench(wb)
        if tmp:
            shutil.rmtree(tmp)
    return {"desc": "; ".join(log), "nt": len(log) >= 5 and made >= 2,
            "labels": (["refused"] if refused else []) + [f"{min(made, 20) // 5 * 5}+ tensors"]}


TARGETS = {"handles": t_handles}
