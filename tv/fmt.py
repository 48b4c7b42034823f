"""Independent encoder / decoder for the documented binary formats
(doc/zh_CN/module.md).  Nothing here shares code with the library."""
import struct
import numpy as np

VOID, INT8, UINT8, INT16, UINT16, INT32, UINT32, INT64, UINT64 = range(9)
FLOAT16, FLOAT32, FLOAT64, PTR, CHAR8, CHAR16, CHAR32 = range(9, 16)
UNKNOWN8, UNKNOWN16, UNKNOWN32, UNKNOWN64, UNKNOWN128, BOOLEAN, COMPLEX32, COMPLEX64, COMPLEX128 = range(16, 25)

BYTES = {VOID: 0, INT8: 1, UINT8: 1, INT16: 2, UINT16: 2, INT32: 4, UINT32: 4, INT64: 8, UINT64: 8,
         FLOAT16: 2, FLOAT32: 4, FLOAT64: 8, PTR: 8, CHAR8: 1, CHAR16: 2, CHAR32: 4, UNKNOWN8: 1, UNKNOWN16: 2,
         UNKNOWN32: 4, UNKNOWN64: 8, UNKNOWN128: 16, BOOLEAN: 1, COMPLEX32: 4, COMPLEX64: 8, COMPLEX128: 16}
for _i in range(25, 33):
    BYTES[_i] = 1
NP = {INT8: np.int8, UINT8: np.uint8, INT16: np.int16, UINT16: np.uint16, INT32: np.int32, UINT32: np.uint32,
      INT64: np.int64, UINT64: np.uint64, FLOAT16: np.float16, FLOAT32: np.float32, FLOAT64: np.float64,
      CHAR8: np.uint8, CHAR16: np.uint16, CHAR32: np.uint32, BOOLEAN: np.uint8,
      UNKNOWN8: np.uint8, UNKNOWN16: np.uint16, UNKNOWN32: np.uint32, UNKNOWN64: np.uint64,
      COMPLEX64: np.complex64, COMPLEX128: np.complex128}
ID = {np.dtype(np.int8): INT8, np.dtype(np.uint8): UINT8, np.dtype(np.int16): INT16, np.dtype(np.uint16): UINT16,
      np.dtype(np.int32): INT32, np.dtype(np.uint32): UINT32, np.dtype(np.int64): INT64,
      np.dtype(np.uint64): UINT64, np.dtype(np.float16): FLOAT16, np.dtype(np.float32): FLOAT32,
      np.dtype(np.float64): FLOAT64, np.dtype(np.bool_): BOOLEAN}
NAMES = {v: k for k, v in list(globals().items()) if k.isupper() and isinstance(v, int)}


def prod(s):
    p = 1
    for i in s:
        p *= i
    return p


class T:
    """A raw tensor: dtype id, shape, little-endian bytes."""
    __slots__ = ("dtype", "shape", "data")

    def __init__(self, dtype, shape, data):
        self.dtype, self.shape, self.data = int(dtype), tuple(int(i) for i in shape), bytes(data)

    def np(self):
        return np.frombuffer(self.data, NP[self.dtype]).reshape(self.shape)

    def __eq__(self, o):
        return (self.dtype, self.shape, self.data) == (o.dtype, o.shape, o.data)

    def __repr__(self):
        return f"T({NAMES.get(self.dtype, self.dtype)},{list(self.shape)},{self.data[:16].hex()}{'..' if len(self.data) > 16 else ''})"


def t(x, dtype=None):
    """numpy / scalar / str -> T"""
    if isinstance(x, T):
        return x
    if isinstance(x, str):
        x = x.encode()
    if isinstance(x, (bytes, bytearray)):
        return T(CHAR8, (len(x),), x)
    if dtype is not None and dtype in NP:
        a = np.ascontiguousarray(np.asarray(x, NP[dtype])).reshape(np.shape(x))
        return T(dtype, a.shape, a.tobytes())
    a = np.asarray(x)
    if dtype is None:
        if isinstance(x, bool):
            return T(BOOLEAN, (), bytes([int(x)]))
        if a.dtype == np.int64 and not isinstance(x, np.ndarray):
            a = a.astype(np.int32)
        if a.dtype == np.float64 and not isinstance(x, (np.ndarray, np.float64)):
            a = a.astype(np.float32)
    return T(ID[a.dtype], a.shape, np.ascontiguousarray(a).tobytes())


def u32(x):
    return struct.pack("<I", x & 0xffffffff)


def enc_tensor(x):
    x = t(x)
    return struct.pack("<bi", x.dtype, len(x.shape)) + b"".join(struct.pack("<i", d) for d in x.shape) + x.data


def enc_packed(x):
    if isinstance(x, (list, tuple)):
        return u32(len(x)) + b"".join(enc_tensor(i) for i in x)
    return u32(1) + enc_tensor(x)


def enc_string(s):
    if isinstance(s, str):
        s = s.encode()
    return u32(len(s)) + s


class Node:
    """A graph node: op, name, params (dict name -> tensor-able), inputs (list of Node)"""
    _n = 0

    def __init__(self, op, inputs=(), name=None, params=None, output_count=None, **kw):
        self.op, self.inputs, self.params = op, list(inputs), dict(params or {}, **kw)
        if name is None:
            Node._n += 1
            name = f"n{Node._n}"
        self.name = name
        self.output_count = output_count


def param(name=None, dtype=None, shape=None):
    n = Node("<param>", [], name)
    if dtype is not None:
        n.params["#dtype"] = np.int32(dtype)
    if shape is not None:
        n.params["#shape"] = np.asarray(shape, np.int32)
    return n


def const(value, name=None):
    return Node("<const>", [], name, {"value": value})


def enc_bubble(n, order=None):
    items = [("#op", n.op), ("#name", n.name)]
    if n.output_count is not None:
        items.append(("#output_count", np.int32(n.output_count)))
    items += list(n.params.items())
    if order:
        items = order(items)
    return u32(len(items)) + b"".join(enc_string(k) + enc_packed(v) for k, v in items)


def topo(outputs, extra=()):
    seen, out = set(), []

    def walk(n):
        st = [(n, 0)]
        while st:
            x, i = st.pop()
            if id(x) in seen and i == 0:
                continue
            if i == 0:
                seen.add(id(x))
            if i < len(x.inputs):
                st.append((x, i + 1))
                if id(x.inputs[i]) not in seen:
                    st.append((x.inputs[i], 0))
            else:
                out.append(x)

    for n in list(outputs) + list(extra):
        walk(n)
    return out


def enc_module(inputs, outputs, nodes=None, fake=0, code=0x19910929, pad=None, order=None):
    nodes = topo(outputs, inputs) if nodes is None else nodes
    idx = {id(n): i for i, n in enumerate(nodes)}
    b = [struct.pack("<II", fake, code), pad or b"\0" * 120]
    b.append(u32(len(inputs)) + b"".join(u32(idx[id(n)]) for n in inputs))
    b.append(u32(len(outputs)) + b"".join(u32(idx[id(n)]) for n in outputs))
    b.append(u32(len(nodes)))
    for n in nodes:
        b.append(enc_bubble(n, order))
        b.append(u32(len(n.inputs)) + b"".join(u32(idx[id(i)]) for i in n.inputs))
    return b"".join(b)


# ---------------------------------------------------------------- decoder
class Bad(Exception):
    pass


class R:
    def __init__(self, b):
        self.b, self.p = b, 0

    def take(self, n):
        if n < 0 or self.p + n > len(self.b):
            raise Bad("short")
        r = self.b[self.p:self.p + n]
        self.p += n
        return r

    def u32(self):
        return struct.unpack("<I", self.take(4))[0]

    def tensor(self):
        dt, nd = struct.unpack("<bi", self.take(5))
        if nd < 0 or nd > 64 or dt not in BYTES:
            raise Bad("proto")
        sh = struct.unpack("<%di" % nd, self.take(4 * nd))
        if any(d < 0 for d in sh):
            raise Bad("neg dim")
        return T(dt, sh, self.take(prod(sh) * BYTES[dt]))

    def packed(self):
        return [self.tensor() for _ in range(self.u32())]

    def string(self):
        return self.take(self.u32())

    def ints(self):
        return [self.u32() for _ in range(self.u32())]


def dec_module(b, trailing=False):
    r = R(b)
    fake, code = r.u32(), r.u32()
    if code != 0x19910929:
        raise Bad("code")
    r.take(120)
    ins, outs = r.ints(), r.ints()
    nodes = []
    links = []
    for _ in range(r.u32()):
        params = {}
        for _ in range(r.u32()):
            k = r.string().decode("latin1")
            v = r.packed()
            params.setdefault(k, v)
        links.append(r.ints())
        if not params.get("#op") or not params.get("#name"):
            raise Bad("no name")
        n = Node(params.pop("#op")[0].data.decode("latin1"), [], params.pop("#name")[0].data.decode("latin1"), params)
        nodes.append(n)
    if r.p != len(b) and not trailing:
        raise Bad("trailing")
    if any(i >= len(nodes) for l in links + [ins, outs] for i in l):
        raise Bad("index")
    for n, l in zip(nodes, links):
        n.inputs = [nodes[i] for i in l]
    return [nodes[i] for i in ins], [nodes[i] for i in outs], nodes
