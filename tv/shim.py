"""python side of shim/mod.cpp (C++-only surface of modules and tensors)"""
import ctypes as C
from . import fmt

P = C.c_void_p


class Mod:
    def __init__(self, path):
        d = self.d = C.CDLL(path)
        d.tv_err.restype = C.c_char_p
        d.tv_buf.restype = P
        d.tv_module_translate.restype = P
        d.tv_module_translate.argtypes = [P, C.c_char_p]
        for n, a in {"tv_module_save": [P], "tv_module_save_file": [P, C.c_char_p], "tv_module_names": [P, C.c_int],
                     "tv_tensor_ser": [P], "tv_tensor_ext": [P, C.c_char_p, C.c_int64], "tv_bubble": [C.c_char_p, C.c_int64, C.c_int],
                     "tv_bubble_info": [C.c_char_p, C.c_int64, P, C.c_int]}.items():
            f = getattr(d, n)
            f.argtypes, f.restype = a, C.c_int64

    def err(self):
        return self.d.tv_err().decode("latin1")

    def buf(self, n):
        return C.string_at(self.d.tv_buf(), n)

    def save(self, m):
        n = self.d.tv_module_save(m)
        if n < 0:
            raise RuntimeError("Module::Save: " + self.err())
        return self.buf(n)

    def translate(self, m, options):
        h = self.d.tv_module_translate(m, options.encode())
        if not h:
            raise RuntimeError("Module::Translate: " + self.err())
        return h

    def ser(self, t):
        n = self.d.tv_tensor_ser(t)
        if n < 0:
            raise RuntimeError("Tensor::serialize: " + (self.err() if n == -1 else "wrong byte count"))
        return self.buf(n)


def canon(data, drop=()):
    """module bytes -> comparable description independent of node and parameter order"""
    ins, outs, nodes = fmt.dec_module(data)
    return canon_nodes(ins, outs, nodes, drop)


def canon_nodes(ins, outs, nodes, drop=()):
    # number the nodes by a traversal from the outputs, then the inputs; then everything is a list
    order, idx = [], {}

    def walk(n):
        st = [n]
        while st:
            x = st.pop()
            if id(x) in idx:
                continue
            idx[id(x)] = len(order)
            order.append(x)
            st += reversed(x.inputs)
    for n in list(outs) + list(ins):
        walk(n)
    rest = sorted((n.op, n.name) for n in nodes if id(n) not in idx)
    desc = []
    for n in order:
        ps = {}
        for k, v in n.params.items():
            if k in drop:
                continue
            v = [fmt.t(i) for i in (v if isinstance(v, (list, tuple)) else [v])]
            ps[k] = [(i.dtype, i.shape, i.data) for i in v]
        desc.append((n.op, n.name, tuple(sorted(ps.items(), key=lambda kv: kv[0])), tuple(idx[id(i)] for i in n.inputs)))
    return dict(inputs=[idx[id(i)] for i in ins], outputs=[idx[id(i)] for i in outs], nodes=desc, rest=rest)


def diff(a, b):
    for k in ("inputs", "outputs"):
        if a[k] != b[k]:
            return f"{k}: {a[k]} became {b[k]}"
    if len(a["nodes"]) != len(b["nodes"]):
        return f"{len(a['nodes'])} nodes became {len(b['nodes'])}"
    for x, y in zip(a["nodes"], b["nodes"]):
        if x != y:
            if x[:2] != y[:2]:
                return f"node {x[:2]} became {y[:2]}"
            if x[3] != y[3]:
                return f"inputs of node {x[:2]}: {x[3]} became {y[3]}"
            px, py = dict(x[2]), dict(y[2])
            for k in sorted(set(px) | set(py)):
                if px.get(k) != py.get(k):
                    return f"param {k!r} of node {x[:2]}: {str(px.get(k))[:150]} became {str(py.get(k))[:150]}"
    if a["rest"] != b["rest"]:
        return f"unlinked nodes {a['rest']} became {b['rest']}"
    return None
