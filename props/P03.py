"""Damaged module and tensor data: a clean error or exactly what the bytes say."""
import ctypes as C
import os
import struct
import numpy as np
from tv import fmt, ops, graphgen, shim
from tv.gen import Violation, Discard
from tv.api import ApiError, Stream
from props import P01

ID = "P03"
RULE = ("the bytes of a valid module / tensor damaged by truncation, byte flips, 32-bit fields replaced by extreme values, "
        "removed / inserted / duplicated ranges, rewired links, and loaded under AddressSanitizer by every entry point; an "
        "independent decoder says whether the bytes are valid; non-trivial = the damaged bytes differ from the original; "
        "distinct by content")
CASES = {"quick": 60000, "thorough": 900000}
VARIANTS = ("asan",)
SHIMS = ("mod",)
CASE_TIMEOUT = 20
EXT = [0, 1, 2, 3, 4, 5, 7, 8, 9, 0xff, 0x100, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0x10000, 0x1000000, 0x40000000]


def setup(libs):
    return P01.setup(libs)


def damage(src, b):
    b = bytearray(b)
    how = []
    for _ in range(src.weighted([(6, 1), (2, 2), (1, 4)])):
        k = src.choice(["cut", "flip", "u32", "del", "dup", "ins", "u32x"])
        how.append(k)
        n = len(b)
        if n < 8:
            break
        i = src.raw(n)
        if k == "cut":
            del b[i:]
        elif k == "flip":
            b[i] ^= 1 << src.raw(8)
        elif k == "u32":
            i = min(i, n - 4)
            b[i:i + 4] = struct.pack("<I", src.choice(EXT))
        elif k == "u32x":           # a field that looks like a count, an index or a size
            js = [j for j in range(0, n - 3) if b[j + 1] == b[j + 2] == b[j + 3] == 0 and b[j] < 40]
            if js:
                j = js[src.raw(len(js))]
                v = src.choice(EXT) if src.bool(0.6) else max(0, b[j] + src.int(-2, 2))
                b[j:j + 4] = struct.pack("<I", v)
        elif k == "del":
            del b[i:i + src.int(1, 16)]
        elif k == "dup":
            b[i:i] = b[i:i + src.int(1, 32)]
        else:
            b[i:i] = src.nprng().bytes(src.int(1, 8))
    return bytes(b), how


def load_any(src, env, data):
    t = env.t
    k = src.weighted([(4, "stream"), (2, "streamV2"), (1, "file"), (1, "fileV2")])
    if k == "stream":
        s = Stream(data)
        return k, t.Module_LoadFromStream(C.c_void_p(1), s.r, 0)
    if k == "streamV2":
        s = Stream(data)
        return k, t.Module_LoadFromStreamV2(C.c_void_p(1), s.r, s.w, None, 0, 0)
    path = os.path.join(env.scratch, "m.tsm")
    open(path, "wb").write(data)
    if k == "file":
        return k, t.Module_Load(path.encode(), 0)
    return k, t.Module_LoadV2(path.encode(), C.cast(C.create_string_buffer(b"reserved"), C.c_void_p), 0, 0)


def judge(src, env, data, what):
    t = env.t
    try:
        dec = fmt.dec_module(data, trailing=True)
        bad = None
    except fmt.Bad as e:
        bad = str(e)
    k, h = load_any(src, env, data)
    if not h:
        if not t.err():
            raise Violation(f"{what}: {k} failed without a message")
        return "rejected"
    try:
        if bad:
            raise Violation(f"{what}: {k} accepted data that is not a valid module ({bad})")
        want = shim.canon_nodes(*dec)
        try:
            got = shim.canon(env.mod.save(h))
        except RuntimeError:
            if any(n.op != "<param>" or n.inputs for n in dec[0]) or any(n.op == "<param>" and n.inputs for n in dec[2]):
                return "unsavable"          # inputs that are no inputs
            raise
        except fmt.Bad as e:
            raise Violation(f"{what}: saved module does not follow the format: {e}")
        for x in (want, got):
            x["rest"] = None                                # unused nodes are not kept
            # a tensor of no fields is the empty (void) tensor, which is saved as one void field
            x["nodes"] = [(a, b, tuple(sorted((k, v or [(0, (), b"")]) for k, v in c)), d) for a, b, c, d in x["nodes"]]
        d = shim.diff(want, got)
        if d:
            raise Violation(f"{what}: {k} loaded something else than the data says: {d}")
    finally:
        t.free_Module(h)
    return "accepted"


def t_module(src, env):
    g = graphgen.gen(src, max_ops=src.choice([1, 3, 6]))
    data = g.encode()
    if src.bool(0.15):
        n = src.raw(len(data))
        bad, how = data[:n], [f"prefix {n} of {len(data)}"]
    else:
        bad, how = damage(src, data)
    r = judge(src, env, bad, f"module damaged by {how} ({len(bad)} bytes)")
    return {"desc": f"module {how} {len(bad)} {hash(bad)}", "nt": bad != data, "labels": [how[0].split()[0], r]}


def t_links(src, env):
    """valid encoding, rewired links"""
    g = graphgen.gen(src, max_ops=src.choice([1, 3, 6]))
    nodes = fmt.topo([v.node for v in g.outputs], [v.node for v in g.inputs])
    ins, outs = [v.node for v in g.inputs], [v.node for v in g.outputs]
    for _ in range(src.int(1, 3)):
        k = src.raw(6)
        n = src.choice(nodes)
        if k == 0 and n.inputs:
            n.inputs[src.raw(len(n.inputs))] = src.choice(nodes)        # may make a cycle
        elif k == 1 and n.inputs:
            del n.inputs[src.raw(len(n.inputs))]
        elif k == 2:
            n.inputs.append(src.choice(nodes))
        elif k == 3:
            ins[src.raw(len(ins))] = src.choice(nodes)
        elif k == 4:
            outs[src.raw(len(outs))] = src.choice(nodes)
        else:
            (ins if src.bool() else outs).append(src.choice(nodes))
    data = fmt.enc_module(ins, outs, nodes=nodes)
    # a cycle anywhere must be rejected
    state = {}
    cyc = False
    for root in nodes:
        st = [(root, 0)]
        while st:
            x, i = st.pop()
            if i == 0:
                if state.get(id(x)) == 2:
                    continue
                state[id(x)] = 1
            if i < len(x.inputs):
                st.append((x, i + 1))
                y = x.inputs[i]
                if state.get(id(y)) == 1:
                    cyc = True
                elif state.get(id(y)) is None:
                    st.append((y, 0))
            else:
                state[id(x)] = 2
    what = f"module with rewired links ({len(nodes)} nodes)"
    if cyc:
        k, h = load_any(src, env, data)
        if h:
            env.t.free_Module(h)
            raise Violation(f"{what}: {k} accepted nodes linked in a cycle")
        r = "cycle"
    else:
        r = judge(src, env, data, what)
    return {"desc": f"links {hash(data)}", "nt": True, "labels": ["links", r]}


def t_tensor(src, env):
    t = env.t
    fs = [P01.rnd(src, P01.ALL) for _ in range(src.weighted([(5, 1), (2, 2), (1, 3)]))]
    data = fmt.enc_packed(fs)
    if src.bool(0.3):
        n = src.raw(len(data))
        bad, how = data[:n], [f"prefix {n} of {len(data)}"]
    else:
        bad, how = damage(src, data)
    what = f"tensor {fs} damaged by {how}: {bad[:40].hex()}.. ({len(bad)} bytes)"
    try:
        want = fmt.R(bad).packed()
        err = None
    except fmt.Bad as e:
        err = str(e)
    if src.bool(0.3):
        path = os.path.join(env.scratch, "t.t")
        open(path, "wb").write(bad)
        h = t.Tensor_load(path.encode())
        ok = bool(h)
    else:
        h = t.new(np.zeros(2, np.float32))
        ok = env.mod.d.tv_tensor_ext(h, bad, len(bad)) >= 0
    try:
        if ok:
            if err:
                raise Violation(f"{what}: accepted ({err})")
            if len(want):
                P01.same(t.get(h), want, what)
    finally:
        if h:
            t.free_Tensor(h)
    return {"desc": f"tensor {how} {hash(bad)}", "nt": bad != data, "labels": ["tensor", "accepted" if ok else "rejected"]}


TARGETS = {"module": t_module, "links": t_links, "tensor": t_tensor}
WEIGHTS = {"module": 4, "links": 1, "tensor": 2}
