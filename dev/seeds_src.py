PRE = '''import os, sys
import ctypes as C
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
from tv import fmt, api
from tv.fmt import Node, param, const, enc_module
t = api.Tennis(os.path.abspath("lib/libtennis.so"))

def out(data, xs, options=None, threads=None):
    return [[f.np() for f in o] for o in t.exec(data, xs, options, threads)]

def eq(got, want, tol=0, what=""):
    want = np.asarray(want)
    if got.shape != want.shape or got.dtype != want.dtype or not (
            np.array_equal(got, want) if tol == 0 else np.allclose(got, want, rtol=tol, atol=tol)):
        print("MISMATCH", what, "got", got, "want", want)
        sys.exit(1)
    print("ok", what)

'''
SEEDS = []


def S(id, prop, edits, needs, breaks, py=None, **kw):
    d = dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, **kw)
    if py is not None:
        d["py"] = py
    SEEDS.append(d)


S("S01-swap-index", "P04", [("src/compiler/compiler.cpp",
"""            if (nodei_it != working_nodes.end() && nodei_it->second == index_i) {
                nodei_it->second = index_j;
            }
""", """            if (nodei_it != working_nodes.end() && nodei_it->second == index_i && index_i < index_j) {
                nodei_it->second = index_j;
            }
""")],
"A graph in which an input node is swapped down the simulated stack (it is on top while an operator below is still to be computed) and is needed once more afterwards.",
"The compiler keeps the old stack position of the swapped node, so a later use of the same node is compiled into a push of another value: the program computes the operator on the wrong operand.",
'''
x, y = param("x"), param("y")
a = Node("sub", [x, y], "a")
b = Node("sub", [y, a], "b")
X, Y = np.array([1, 2, 3], np.float32), np.array([10, 20, 40], np.float32)
for i, (outs, want) in enumerate([([b, x, a, x, y], [Y - (X - Y), X, X - Y, X, Y]),
                   ([a, y, y, b, x], [X - Y, Y, Y, Y - (X - Y), X]),
                   ([a, x, y, x], [X - Y, X, Y, X]),
                   ([x, b, y, a, y, b], [X, Y - (X - Y), Y, X - Y, Y, Y - (X - Y)])]):
    got = out(enc_module([x, y], outs), [X, Y])
    for j, (g, w) in enumerate(zip(got, want)):
        eq(g[0], w, 0, f"case {i} output {j}")
''')

S("S02-filter-shared", "P05", [("src/runtime/program.cpp",
"value = program->m_data_segment->clone_push(data.tensor);", "value = program->m_data_segment->push(data.tensor);")],
"A module with a constant below the epsilon of its type, compiled once with --filter and afterwards compiled again (or saved) without it.",
"The program shares the memory of the module's constants, so --filter zeroes the constant in the module itself and every later program of that module computes with the changed constant.",
'''
x = param("x")
c = np.array([1e-9, 2.0], np.float32)
data = enc_module([x], [Node("mul", [x, const(c, "c")], "y")])
m = t.module(data)
X = np.array([1e9, 1.0], np.float32)
def run(opt):
    wb = t.bench(m, opt)
    t.set_input(wb, 0, X)
    t.run(wb)
    r = t.output(wb, 0)[0].np()
    t.free_Workbench(wb)
    return r
eq(run(""), X * c, 1e-6, "plain")
eq(run("--filter"), X * np.array([0, 2], np.float32), 1e-6, "filtered")
eq(run(""), X * c, 1e-6, "plain after filtered")
''')

S("S03-merge-equal-dims", "P09", [("src/backend/base/element_wise_reduce.cpp",
"if (lhs_equal_rhs) lhs_equal_rhs = lhs[j] == rhs[j];", "if (lhs_equal_rhs) lhs_equal_rhs = lhs[j] == rhs[j] || lhs[j] == out[j];")],
"Operands with an equal dimension greater than 1 directly followed by a dimension in which only the right operand is broadcast.",
"Dimensions are merged although the right operand is broadcast in one of them; the merged right operand is then repeated in the wrong order.",
'''
L = np.arange(2 * 3 * 4, dtype=np.float32).reshape(2, 3, 4)
R = np.array([100, 200], np.float32).reshape(2, 1, 1) + np.zeros((2, 1, 4), np.float32)
for op, f in (("add", np.add), ("sub", np.subtract), ("mul", np.multiply)):
    eq(out(api.op_module(op, 2, {}), [L, R])[0][0], f(L, R), 0, op)
''')

S("S04-softmax-max", "P15", [("src/kernels/cpu/softmax.cpp",
"                    T max = *loop_in;\n", "                    T max = T(0);\n")],
"A smooth softmax slice whose largest element is far below 0 (for float32 below about -104).",
"The maximum subtracted for stability is never below 0, so all exponentials underflow and the result is 0/0.",
'''
x = np.array([[-200, -201, -199], [1, 2, 3]], np.float32)
e = np.exp(x - x.max(1, keepdims=True)); e /= e.sum(1, keepdims=True)
eq(out(api.op_module("softmax", 1, {"dim": 1, "smooth": True}), [x])[0][0], e.astype(np.float32), 1e-5, "softmax")
''')

S("S05-transpose-fast", "P16", [("src/kernels/cpu/transpose.cpp",
"            if(permute == NHWC3ToNC3HW_order && input_shape[3] == 3)", "            if(permute == NHWC3ToNC3HW_order && input_shape[3] >= 3)")],
"A float32 4-D tensor with more than 3 channels and width of at least 4, transposed from NHWC to NCHW.",
"The fast path for 3 channels is taken for more channels; its SIMD loop reads 3-element pixels.",
'''
x = np.arange(1 * 2 * 5 * 4, dtype=np.float32).reshape(1, 2, 5, 4)
eq(out(api.op_module("_transpose", 1, {"permute": np.array([0, 3, 1, 2], np.int32)}), [x])[0][0], x.transpose(0, 3, 1, 2), 0, "transpose")
''')

S("S06-param-fields", "P02", [("src/core/tensor.cpp",
"""        if (fields.size() > 1) {
            this->m_fields = std::vector<self>(fields.begin() + 1, fields.end());
        } else {
            this->m_fields.clear();
        }
""", """        if (fields.size() > 1) {
            this->m_fields = std::vector<self>(fields.begin() + 1, fields.end());
        }
""")],
"A node with a packed (several fields) parameter that is followed by another parameter in the file: the tensor the loader reads into is reused.",
"A single tensor loaded over a packed one keeps the additional fields of the previous one, so parameters of loaded modules get fields the file does not contain.",
'''
x = param("x")
c = Node("<const>", [], "c")
c.params = {"extra": [np.arange(2, dtype=np.int32), np.arange(3, dtype=np.int32)], "value": np.array([1, 2], np.float32)}
data = enc_module([x], [Node("_copy", [x], "y"), c])
got = out(data, [np.zeros(1, np.float32)])
if len(got[1]) != 1:
    print("constant output has", len(got[1]), "fields")
    sys.exit(1)
eq(got[1][0], np.array([1, 2], np.float32), 0, "const")
''')

S("S07-gemm-tail", "P14", [("src/kernels/cpu/math_cpu.cpp",
"""                    sum0 = ts::sum(c0);

                    for (int k = k_remain; k < K; k++) {
                        sum0 += (*A_at) * (*B_at);
                        A_at++;
                        B_at++;
                    }

                    *output_row0 = sum0;
                    output_row0++;
                }
            }
        }
""", """                    sum0 = ts::sum(c0);

                    for (int k = k_remain; k < K; k++) {
                        sum0 += (*A_at) * (*B_at);
                        A_at++;
                    }

                    *output_row0 = sum0;
                    output_row0++;
                }
            }
        }
""")],
"A float32 inner product with rows and columns left over from the blocks of 8 and an inner length leaving 2 or more elements over from the blocks of 4.",
"The remainder of the dot product of the last rows and columns uses the same element of the right matrix repeatedly.",
'''
rng = np.random.RandomState(1)
a = rng.randint(-4, 5, (9, 7)).astype(np.float32)
b = rng.randint(-4, 5, (7, 10)).astype(np.float32)
eq(out(api.op_module("inner_prod", 2, {}), [a, b])[0][0], a @ b, 1e-5, "inner_prod")
''')

S("S08-nms-order", "P17", [("src/kernels/cpu/non_max_suppression_v3.cpp",
"for (int j = static_cast<int>(selected.size()) - 1; j >= 0; --j) {", "for (int j = static_cast<int>(selected.size()) - 1; j > 0; --j) {")],
"At least one box overlapping the best box that does not overlap any later selected box.",
"Candidates are not compared with the first selected box, so boxes it should suppress are selected.",
'''
boxes = np.array([[0, 0, 10, 10], [1, 1, 10, 10], [20, 20, 30, 30]], np.float32)
scores = np.array([0.9, 0.8, 0.7], np.float32)
got = out(api.op_module("non_max_suppression_v3", 2, {"max_output_size": 3, "iou_threshold": 0.5, "score_threshold": 0.1, "mode": "xyxy"}), [boxes, scores])[0][0]
eq(got.reshape(-1), np.array([0, 2, -1], np.int32), 0, "nms")
''')

S("S09-empty-load", "P01", [("src/core/tensor.cpp",
"        memory = controller->alloc(size_t(proto.count()) * proto.type_bytes());\n",
"        memory = controller->alloc(std::max<size_t>(size_t(proto.count()) * proto.type_bytes(), 1));\n")],
"A tensor (or field) without elements in the data.",
"One byte too much is read for a tensor without elements, so what follows it in the stream is misread or loading fails at the end.",
'''
import tempfile
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x").encode()
    xs = [np.zeros((0, 3), np.float32), np.arange(6, dtype=np.int16).reshape(2, 3)]
    h = t.pack(xs)
    if not t.Tensor_save(p, h):
        print("save failed", t.err()); sys.exit(1)
    r = t.Tensor_load(p)
    if not r:
        print("load failed", t.err()); sys.exit(1)
    for a, b in zip(t.get(r), xs):
        eq(a.np(), b, 0, "field")
''')


S("S10-stale-hook", "P06", [("src/runtime/workbench.cpp", "        this->m_hooked_tensor.clear();\n\n        auto outputs = launch_offline(m_desktop, m_inputs);", "        auto outputs = launch_offline(m_desktop, m_inputs);")],
  "a hooked run followed by a plain run with other inputs, then reading the hooked node by name",
  "a node hooked in an earlier run keeps answering by name with that run's value after the next run",
  py="""
x = param("x")
n = Node("abs", [x], "inner")
y = Node("add", [n, n], "y")
m = t.module(enc_module([x], [y]))
wb = t.bench(m)
t.set_input(wb, 0, np.float32([-1, 2]))
import ctypes as C
arr = (C.c_char_p * 2)(b"inner", b"y")
assert t.Workbench_run_hook(wb, C.cast(arr, C.c_void_p), 2)
eq(t.output(wb, "inner")[0].np(), np.float32([1, 2]))
t.set_input(wb, 0, np.float32([-5, 7]))
t.run(wb)
eq(t.output(wb, "y")[0].np(), np.float32([10, 14]))
try:
    got = t.output(wb, "inner")[0].np()
except Exception:
    got = None
assert got is None or (got == np.float32([5, 7])).all(), got
""")

S("S11-conv-1x1-stride", "P11", [("src/kernels/cpu/conv2d_core.cpp",
"            bool is_1x1_conv = stride.height == 1 && stride.width == 1 &&",
"            bool is_1x1_conv = stride.height == 1 &&")],
  "a 1x1 convolution without padding whose strides differ: 1 in height and more in width",
  "the convolution is treated as dense 1x1 and reads the input without the width stride",
  py="""
rng = np.random.default_rng(1)
x = rng.integers(-4, 5, (2, 3, 4, 6)).astype(np.float32)
w = rng.integers(-4, 5, (5, 3, 1, 1)).astype(np.float32)
for sh, sw in ((1, 1), (1, 2), (2, 1), (2, 2), (1, 3)):
    px, pw = param("x"), const(w, "w")
    n = Node("conv2d", [px, pw], "y", format="NCHW", padding=np.zeros((4, 2), np.int32),
             stride=np.int32([1, 1, sh, sw]), dilation=np.int32([1, 1, 1, 1]))
    want = np.einsum("nchw,oc->nohw", x[:, :, ::sh, ::sw], w[:, :, 0, 0])
    eq(out(enc_module([px], [n]), [x])[0][0], want.astype(np.float32), 1e-5, f"stride {sh},{sw}")
""")

S("S12-hard-sigmoid-tail", "P10", [("src/kernels/cpu/hard_sigmoid.cpp",
"                output_data[i] = std::max(float(0.), std::min(float(1.), float(alpha * input_data[i] + beta)));",
"                output_data[i] = std::max(float(0.), float(alpha * input_data[i] + beta));")],
  "a float32 tensor whose length is no multiple of 4 and whose last elements lie above the saturation point",
  "hard_sigmoid of the remainder elements is not clamped to 1",
  py="""
for n in (1, 3, 4, 5, 8, 11):
    x = np.linspace(-9, 9, n).astype(np.float32)
    px = param("x")
    y = Node("hard_sigmoid", [px], "y", alpha=np.float32(0.25), beta=np.float32(0.5))
    eq(out(enc_module([px], [y]), [x])[0][0], np.clip(x * np.float32(0.25) + np.float32(0.5), 0, 1), 1e-6, f"n={n}")
""")

S("S13-truncated-file", "P03", [("src/module/io/fstream.cpp",
"""    size_t FileStreamReader::read(void *buffer, size_t size) {
        m_stream.read(reinterpret_cast<char *>(buffer), size);
        return size_t(m_stream.gcount());
    }
""", """    size_t FileStreamReader::read(void *buffer, size_t size) {
        m_stream.read(reinterpret_cast<char *>(buffer), size);
        return m_stream.bad() ? 0 : size;
    }
""")],
  "a module file that ends early, loaded by file name",
  "a short read is reported as complete, so a truncated module file is loaded with whatever was in the buffers",
  py="""
import tempfile, shutil
x = param("x")
y = Node("add", [x, const(np.float32([[1, 2], [3, 4]]), "c")], "y")
data = enc_module([x], [y])
d = tempfile.mkdtemp()
bad = []
try:
    path = os.path.join(d, "m.tsm")
    for cut in [len(data)] + list(range(len(data) - 1, len(data) - 60, -1)) + [200, 140]:
        open(path, "wb").write(data[:cut])
        try:
            m = t.Module_Load(path.encode(), 0)
            ok = bool(m)
        except api.ApiError:
            ok = False
        if ok != (cut == len(data)):
            bad.append(cut)
finally:
    shutil.rmtree(d)
assert not bad, f"truncated files of {bad} bytes were loaded"
""")

S("S14-pool-k3s2-corner", "P13", [("src/kernels/cpu/pooling_algorithm.cpp",
"                            *out_at = std::max(std::max(i0[0], i1[0]), i2[0]);",
"                            *out_at = std::max(i0[0], i1[0]);")],
  "3x3 stride-2 float32 max pooling whose last window holds one column only (odd width, padding at the right) and whose maximum of an inner row lies in the third row",
  "the last column of the specialised 3x3/2 pooling ignores the third row of its windows",
  py="""
rng = np.random.default_rng(3)
for h, w in ((7, 3), (6, 5), (9, 11), (8, 7), (5, 4)):
    x = rng.permutation(2 * h * w).astype(np.float32).reshape(1, 2, h, w) - h * w
    p = param("x")
    n = Node("pooling2d", [p], "y", format="NCHW", type=np.int32(0), padding_type=np.int32(0),
             padding=np.int32([[0, 0], [0, 0], [0, 1], [0, 1]]), ksize=np.int32([1, 1, 3, 3]), stride=np.int32([1, 1, 2, 2]))
    oh, ow = -((h + 1 - 3) // -2) + 1, -((w + 1 - 3) // -2) + 1
    want = np.float32([[[x[0, c, i * 2:i * 2 + 3, j * 2:j * 2 + 3].max() for j in range(ow)] for i in range(oh)] for c in range(2)])[None]
    eq(out(enc_module([p], [n]), [x])[0][0], want, 0, f"{h}x{w}")
""")

S("S15-dcn-border", "P12", [("src/kernels/cpu/dcn/dcn_v2_im2col_cpu.cpp",
"                if (h_im > -1 && w_im > -1 && h_im < height && w_im < width)",
"                if (h_im >= 0 && w_im >= 0 && h_im < height && w_im < width)")],
  "a sampling position of dcn_v2_forward that lies less than one pixel outside the upper or left border (fractional offset)",
  "samples between -1 and 0 are dropped instead of interpolated with the zero border",
  py="""
x = np.arange(1, 17, dtype=np.float32).reshape(1, 1, 4, 4)
w = np.ones((1, 1, 1, 1), np.float32)
b = np.zeros(1, np.float32)
for dy, dx in ((0, 0), (0.5, 0.25), (-0.5, 0), (0, -0.25), (-1, -1)):
    off = np.zeros((1, 2, 4, 4), np.float32); off[:, 0] = dy; off[:, 1] = dx
    mask = np.ones((1, 1, 4, 4), np.float32)
    ps = [param(n) for n in "xwbom"]
    want = np.zeros((4, 4))
    pad = np.zeros((7, 7)); pad[1:5, 1:5] = x[0, 0]
    for i in range(4):
        for j in range(4):
            yy, xx = i + dy + 1, j + dx + 1
            a, c = int(np.floor(yy)), int(np.floor(xx))
            fy, fx = yy - a, xx - c
            want[i, j] = (1-fy)*(1-fx)*pad[a,c] + (1-fy)*fx*pad[a,c+1] + fy*(1-fx)*pad[a+1,c] + fy*fx*pad[a+1,c+1]
    n = Node("dcn_v2_forward", ps, "y", format="NCHW", padding=np.zeros((4, 2), np.int32), stride=np.int32([1, 1, 1, 1]),
             dilation=np.int32([1, 1, 1, 1]), deformable_groups=np.int32(1))
    eq(out(enc_module(ps, [n]), [x, w, b, off, mask])[0][0], want[None, None].astype(np.float32), 1e-5, f"offset {dy},{dx}")
""")

S("S16-shared-error", "P07", [("src/api/errno.h", "        extern thread_local std::string _thread_local_last_error_message;",
   "        extern std::string _thread_local_last_error_message;"),
  ("src/api/errno.cpp", "thread_local std::string ts::api::_thread_local_last_error_message;", "std::string ts::api::_thread_local_last_error_message;")],
  "two threads using the API at the same time, one of them failing",
  "the last error message is shared by all threads: it is overwritten, cleared and read while it is being written by another thread",
  py="""
import threading
x = param("x")
m = t.module(enc_module([x], [Node("add", [x, const(np.float32([1]), "c")], "y")]))
wb = t.bench(m)
h = t.new(np.zeros(2, np.float32))
assert not t.Workbench_input(wb, 77, h)
mine = t.err()
assert "77" in mine, mine
def other():
    w2 = t.bench(m)
    assert not t.Workbench_input(w2, 55, h)
    assert "55" in t.err(), t.err()
    t.free_Workbench(w2)
th = threading.Thread(target=other); th.start(); th.join()
assert t.err() == mine, f"message of this thread was {mine!r}, is {t.err()!r}"
""")

S("S17-half-top", "P22", [("include/core/ieee754_float.h",
"} else if (origin_exponent > max_exponent) {", "} else if (origin_exponent >= max_exponent) {")],
"Half precision numbers of the largest binade (magnitude 32768 and up).",
"Every number from 32768 to 65504 becomes the largest half 65504 when it is converted to float16.",
'''
x = np.array([1, 2048, 16384, 32767, 32752, 32768, 40000, 65504, -32768, -50000], np.float32)
p = param("x")
h = Node("_cast", [p], "h", {"dtype": np.int32(fmt.FLOAT16)})
f = Node("_cast", [h], "f", {"dtype": np.int32(fmt.FLOAT32)})
got = out(enc_module([p], [f]), [x])[0][0]
for a, b in zip(x, got):
    # one half below or above
    if abs(float(a) - float(b)) > abs(float(a)) / 1024:
        print("MISMATCH", a, "became", b)
        sys.exit(1)
print("ok")
''')

S("S18-reshape-same", "P23", [("src/core/tensor.cpp",
"        Tensor t = *this;\n        t.m_proto = std::move(proto);", "        Tensor t = proto.sizes() == this->sizes() ? this->clone() : *this;\n        t.m_proto = std::move(proto);")],
"A tensor reshaped to the shape it already has, then a write through one of the two handles.",
"The reshaped handle is a copy and no view: writes through one are not seen by the other, while any other reshape shares its memory.",
'''
def check(shape, new):
    a = t.new(np.zeros(shape, np.float32))
    s = (C.c_int32 * len(new))(*new)
    b = t.Tensor_reshape(a, C.cast(s, C.c_void_p), len(new))
    assert b, t.err()
    C.cast(t.Tensor_data(a), C.POINTER(C.c_float))[1] = 5
    C.cast(t.Tensor_data(b), C.POINTER(C.c_float))[2] = 7
    for h in (a, b):
        eq(t.get(h)[0].np().reshape(-1)[:4], np.array([0, 5, 7, 0], np.float32), 0, f"{shape} {new}")
    t.free_Tensor(a)
    t.free_Tensor(b)

check((2, 3), (3, 2))
check((2, 3), (6,))
check((2, 3), (2, 3))
check((4,), (-1,))
check((1, 4), (1, -1))
''')

S("S19-init-once", "P26", [("src/api/operator.cpp",
"        ts_OperatorParams params(this);\n        ts_OperatorContext context;\n        if (!f_init_ex) {\n            f_init(obj, &params, &context);\n            return;",
"        ts_OperatorParams params(this);\n        ts_OperatorContext context;\n        if (!f_init_ex) {\n            if (!initialized) f_init(obj, &params, &context);\n            initialized = true;\n            return;"),
("src/api/operator.cpp", "    void *obj = nullptr;\n", "    void *obj = nullptr;\n    bool initialized = false;\n")],
"An operator registered with ts_Operator_Register whose parameter is changed by set_operator_param after the program was compiled.",
"The operator is not initialised again with the new parameter, so it keeps computing with the old one.",
'''
P = C.c_void_p
state = {}
NEW, FREE, INIT = C.CFUNCTYPE(P), C.CFUNCTYPE(None, P), C.CFUNCTYPE(None, P, P, P)
RUN = C.CFUNCTYPE(P, P, C.c_int32, C.POINTER(P), P)
n = [0]

def new():
    n[0] += 1
    return n[0]

def init(o, d, c):
    h = t.OperatorParams_get(d, b"scale")
    state[o] = float(np.ravel(t.get(h)[0].np())[0])
    t.free_Tensor(h)

def run(o, k, argv, c):
    x = t.get(argv[0])[0].np()
    return t.new(np.ascontiguousarray(x * np.float32(state[o]), np.float32))

cb = [NEW(new), FREE(lambda o: None), INIT(init), RUN(run)]
a = [C.cast(f, P) for f in cb]
t.Operator_Register(b"cpu", b"my_scale", a[0], a[1], a[2], None, a[3])
x = param("x")
y = Node("my_scale", [x], "y", {"scale": np.float32(2)})
m = t.module(enc_module([x], [y]))
wb = t.bench(m)
X = np.array([1, 2, 3], np.float32)

def go(want):
    t.set_input(wb, 0, X)
    t.run(wb)
    eq(t.output(wb, 0)[0].np(), want, 0, "run")

go(X * 2)
for s in (3, -1):
    h = t.new(np.float32(s))
    assert t.Workbench_set_operator_param(wb, b"y", b"scale", h), t.err()
    t.free_Tensor(h)
    go(X * np.float32(s))
''')

S("S20-fusion-repeated", "P27", [("src/module/module.cpp",
"                outputs.emplace_back(output);", "                if (std::find(outputs.begin(), outputs.end(), output) == outputs.end()) outputs.emplace_back(output);")],
"Fusing a module that has the same node at several output slots (none of them connected).",
"The repeated output appears only once in the fused module, so it has fewer outputs and the slots after it give other values.",
'''
def mod(p, outs):
    x = param(p + "x")
    a, b = Node("abs", [x], p + "a"), Node("sub", [x, x], p + "b")
    c = Node("add", [a, x], p + "c")
    return t.module(enc_module([x], [{"a": a, "b": b, "c": c, "x": x}[o] for o in outs]))

def ref(x, outs):
    return [{"a": np.abs(x), "b": x - x, "c": np.abs(x) + x, "x": x}[o] for o in outs]

X = np.array([1, -2, 3], np.float32)
for f, i, s in (("ac", 0, "bc"), ("acb", 1, "ba"), ("aab", 2, "c"), ("a", 0, "cca")):
    h = t.Module_Fusion(mod("f", f), i, mod("s", s), 0)
    assert h, t.err()
    r = ref(X, f)
    want = [y for k, y in enumerate(r) if f[k] != f[i]] + ref(r[i], s)
    wb = t.bench(h)
    assert t.Workbench_output_count(wb) == len(want), (f, i, s, t.Workbench_output_count(wb))
    t.set_input(wb, 0, X)
    t.run(wb)
    for k, w in enumerate(want):
        eq(t.output(wb, k)[0].np(), w, 0, f"{f} {i} {s} output {k}")
''')

S("S21-input-slot", "P28", [("src/runtime/workbench.cpp",
"""        if (slot < 0 || size_t(slot) >= m_inputs.size()) {
            TS_LOG_ERROR << "Input index out of range. with index=" << slot << eject;
        }
        m_inputs[slot] = tensor;""",
"""        if (slot < 0 || size_t(slot) >= m_inputs.capacity()) {
            TS_LOG_ERROR << "Input index out of range. with index=" << slot << eject;
        }
        if (size_t(slot) >= m_inputs.size()) m_inputs.resize(size_t(slot) + 1);
        m_inputs[slot] = tensor;""")],
"A workbench set up with a program of fewer inputs than it had before (the vector keeps its capacity), and an input slot just past the inputs.",
"Setting an input slot that does not exist succeeds and adds an input to the workbench, so the next run fails.",
'''
def mod(k):
    xs = [param(f"x{i}") for i in range(k)]
    y = xs[0]
    for i, x in enumerate(xs[1:]):
        y = Node("add", [y, x], f"y{i}")
    if k == 1:
        y = Node("abs", [y], "y")
    return t.module(enc_module(xs, [y]))

X = np.array([1, 2, 3], np.float32)
wb = t.bench(mod(3))
p = t.Program_Compile(mod(1), t.cpup) if hasattr(t, "Program_Compile") else None
assert t.Workbench_setup_context(wb)
p = t.Program_Compile(mod(1), t.cpup)
assert p, t.err()
assert t.Workbench_setup(wb, p), t.err()
h = t.new(X)
for slot in (1, 2, 3, -1):
    if t.Workbench_input(wb, slot, h) or not t.err():
        print("MISMATCH input slot", slot, "was accepted")
        sys.exit(1)
assert t.Workbench_input(wb, 0, h), t.err()
t.run(wb)
eq(t.output(wb, 0)[0].np(), X, 0, "run")
''')

S("S22-hard-row-copy", "P18", [("src/kernels/cpu/resize2d.cpp",
"""                for (int n_x_d = 0; n_x_d < dst_width; n_x_d++) {
                    float lf_x_s = lfx_scl * n_x_d;
                    float lf_y_s = lfy_scl * n_y_d;
""",
"""                if (src_width == dst_width) {
                    // only the rows are picked
                    int n_y_row = n_y_d * src_height / dst_height;
                    std::memcpy(dst_im + n_y_d * dst_width * channels,
                                src_im + n_y_row * src_width * channels, src_width * sizeof(T));
                    continue;
                }
                for (int n_x_d = 0; n_x_d < dst_width; n_x_d++) {
                    float lf_x_s = lfx_scl * n_x_d;
                    float lf_y_s = lfy_scl * n_y_d;
""")],
"Resizing with the HARD method to another height and the same width, with more than one channel after the image dims.",
"Only the first of the channels' share of each row is written, the rest of the output is whatever was in memory.",
'''
for dt in (np.float32, np.uint8):
    for h, w, c, nh in ((6, 5, 3, 3), (4, 7, 2, 8), (5, 5, 1, 2)):
        X = (np.arange(h * w * c) % 97 + 1).reshape(1, h, w, c).astype(dt)
        for nw in (w, w - 1):
            x = param("x")
            y = Node("_resize2d", [x, const(np.array([-1, nh, nw, -1], np.int32), "size")], "y", {"type": 3})
            got = out(enc_module([x], [y]), [X])[0][0]
            yi = np.minimum((np.arange(nh, dtype=np.float32) * np.float32(np.float32(h) / np.float32(nh))).astype(int), h - 1)
            xi = np.minimum((np.arange(nw, dtype=np.float32) * np.float32(np.float32(w) / np.float32(nw))).astype(int), w - 1)
            eq(got, X[:, yi][:, :, xi], 0, f"hard {dt.__name__} {h}x{w}x{c} -> {nh}x{nw}")
''')

S("S23-letterbox-cached", "P19", [("src/backend/zoo/nhwc_letterbox.cpp",
"""            m_sample_affine.data<float>(0) = 1 / scale;
            m_sample_affine.data<float>(4) = 1 / scale;
""",
"""            // the affine only depends on the size of the image
            if (m_last_area != x_size.width * x_size.height) {
                m_sample_affine.data<float>(0) = 1 / scale;
                m_sample_affine.data<float>(4) = 1 / scale;
                m_last_area = x_size.width * x_size.height;
            }
"""), ("include/backend/zoo/nhwc_letterbox.h",
"""            Tensor m_sample_affine;
""",
"""            Tensor m_sample_affine;
            int m_last_area = 0;
""")],
"Two images of different shape with equally many pixels run one after the other through the same letterbox step.",
"The second image is scaled by the ratio of the first one (4x9 after 6x6).",
'''
def ref(x, w, h):
    s = np.float32(min(np.float32(w) / np.float32(x.shape[2]), np.float32(h) / np.float32(x.shape[1])))
    z = float(np.float32(1) / s)
    y = np.zeros((1, h, w, x.shape[3]))
    for j in range(h):
        for i in range(w):
            px, py = i * z, j * z
            if px > x.shape[2] - 1 or py > x.shape[1] - 1:
                continue
            a, b = min(int(px), x.shape[2] - 2), min(int(py), x.shape[1] - 2)
            u, v = px - a, py - b
            y[0, j, i] = (x[0, b, a] * (1 - u) + x[0, b, a + 1] * u) * (1 - v) + (x[0, b + 1, a] * (1 - u) + x[0, b + 1, a + 1] * u) * v
    return y

x = param("x")
f = Node("to_float", [x], "f")
y = Node("_nhwc_letterbox", [f], "y", {"size": np.array([8, 8], np.int32)})
wb = t.bench(t.module(enc_module([x], [y])))
for h, w in ((8, 4), (4, 4), (8, 2), (4, 8), (8, 4), (16, 2)):
    X = (np.arange(h * w * 3).reshape(1, h, w, 3) % 50).astype(np.float32)
    t.set_input(wb, 0, X)
    t.run(wb)
    eq(t.output(wb, 0)[0].np(), ref(X, 8, 8).astype(np.float32), 2e-3, f"letterbox {h}x{w}")
''')

S("S24-lstm-initial", "P21", [("src/backend/base/base_lstm.cpp",
"""                auto init_h_reverse = initial_h.slice(1);
                auto init_c_reverse = initial_c.slice(1);
                lstm_compute(stack, x, w_forward,""",
"""                auto init_h_reverse = initial_h.slice(1);
                auto init_c_reverse = initial_c.slice(0);
                lstm_compute(stack, x, w_forward,""")],
"A bidirectional LSTM with initial cell states that differ between the directions.",
"The backward direction starts from the cell state of the forward direction.",
'''
def sig(v):
    return 1 / (1 + np.exp(-v))

def ref(x, W, R, b, h, c, rev):
    H = W.shape[0] // 4
    y = np.zeros((x.shape[0], x.shape[1], H))
    for k in (range(len(x))[::-1] if rev else range(len(x))):
        g = x[k] @ W.T + h @ R.T + b[:4 * H] + b[4 * H:]
        i, o, f, u = (g[:, j * H:(j + 1) * H] for j in range(4))
        c = sig(f) * c + sig(i) * np.tanh(u)
        h = sig(o) * np.tanh(c)
        y[k] = h
    return y, h, c

g = np.random.default_rng(1)
w = lambda *s: g.standard_normal(s).astype(np.float32)
for D, mode in ((1, "forward"), (2, "bidirectional")):
    W, R, B = w(D, 12, 4), w(D, 12, 3), w(D, 24)
    ps = [param(n) for n in "xhc"]
    y = Node("LSTM", [ps[0], const(W, "W"), const(R, "R"), const(B, "B"), ps[1], ps[2]], "y", {"direction": mode, "hidden_size": np.int32(3)})
    for L in (1, 3):
        x, h, c = w(L, 2, 4), w(D, 2, 3), w(D, 2, 3)
        got = out(enc_module(ps, [y]), [x, h, c])[0]
        r = [ref(x, W[d], R[d], B[d], h[d], c[d], d == 1) for d in range(D)]
        want = [np.stack([q[0] for q in r], 1), np.stack([q[1] for q in r]), np.stack([q[2] for q in r])]
        for a, b in zip(got, want):
            eq(a, b.astype(np.float32), 1e-4, f"{mode} {L}")
''')

S("S25-nms-early-stop", "P20", [("src/kernels/cpu/yolo_poster.cpp",
"                        if(dets[sorted_i].prob[k] == 0) continue;",
"                        if(dets[sorted_i].prob[k] == 0) break;")],
"Two clusters of overlapping boxes of one class, where a box of the first cluster is suppressed before the second cluster is reached.",
"Suppression stops at the first box that was already suppressed, so duplicates of lower-scored objects are returned.",
'''
# boxes (cx, cy, w, h, obj) on a 4x4 grid with anchor 32x32 of a 64x64 net, class probability 1
cells = {(0, 0): (.5, .5, .9), (0, 1): (.01, .5, .8), (3, 2): (.99, .5, .7), (3, 3): (.1, .5, .6)}
for keep in (((0, 0), (0, 1)), ((0, 0), (3, 2)), tuple(cells)):
    y = np.zeros((1, 6, 4, 4), np.float32)
    for r, c in keep:
        y[0, :2, r, c] = cells[r, c][:2]
        y[0, 4, r, c], y[0, 5, r, c] = cells[r, c][2], 1
    net, ps = param("net"), [param(n) for n in "y"]
    x = param("x")
    L = Node("_pack", [x, const(np.int32(1), "c"), const(np.array([0], np.int32), "m"), const(np.array([32, 32], np.float32), "a")], "l")
    p = Node("yolo_poster", [net, L], "p", {"thresh": np.float32(.5), "nms": np.float32(.45)})
    got = out(enc_module([net, x], [p]), [np.zeros((1, 3, 64, 64), np.float32), y])[0][0]
    eq(np.sort(got[:, 4])[::-1].copy(), np.asarray([cells[k][2] for k in keep if k in ((0, 0), (3, 2))], np.float32), 1e-5, str(keep))
''')

S("S26-aligned-close", "P25", [("src/encryption/aes_fstream.cpp",
"        if(m_master_datalen == AES_BLOCKLEN) {",
"        if(m_master_datalen > AES_BLOCKLEN) {")],
"An encrypted file whose contents are a multiple of 16 bytes long.",
"The padding block of block-aligned contents is not written, so readers take the last byte for a padding and drop the end or fail.",
cpp='''#include "encryption/encrypted_fstream.h"
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
int main() {
    char dir[] = "/tmp/s26XXXXXX";
    if (!mkdtemp(dir)) return 2;
    std::string path = std::string(dir) + "/f";
    int bad = 0;
    for (int n : {1, 15, 16, 17, 32, 100, 160}) {
        std::vector<char> a(n), b(n + 8);
        for (int i = 0; i < n; ++i) a[i] = char(i * 7 + 1);
        { ts::EncryptedFileStreamWriter w(path, "a key"); w.write(a.data(), a.size()); w.close(); }
        ts::EncryptedFileStreamReader r(path, "a key");
        size_t k = 0;
        try { k = r.read(b.data(), b.size()); } catch (const std::exception &) {}
        b.resize(k);
        if (a != b) { std::printf("%d bytes: read %d\\n", n, int(k)); bad = 1; }
    }
    std::remove(path.c_str());
    std::remove(dir);
    return bad;
}
''')

S("S27-to-double-float", "P29", [("include/api/cpp/tensor.h",
"                if (cpu_value.dtype() != TS_FLOAT64) cpu_value = cast(TS_FLOAT64, cpu_value);",
"                if (cpu_value.dtype() != TS_FLOAT64) cpu_value = cast(TS_FLOAT32, cpu_value);")],
"tensor::to_double of an integer tensor whose value needs more than 24 bits.",
"The value is converted by way of FLOAT32 and comes back rounded.",
cpp='''#include "api/cpp/tennis.h"
#include <cstdio>
using namespace ts::api;
template <typename T> static int check(const T v) {
    const double got = tensor::to_double(tensor::from(v)), want = double(v);
    if (got == want) return 0;
    std::printf("%.17g comes back as %.17g\\n", want, got);
    return 1;
}
int main() {
    int bad = 0;
    for (int v : {0, 1, -7, 65536, 16777216, 16777217, -2147483647}) bad |= check(v);
    for (float v : {0.f, .5f, 1e30f}) bad |= check(v);
    for (double v : {0., .1, 1e300}) bad |= check(v);
    return bad;
}
''')

S("S28-intime-affine", "P31", [("src/frontend/intime.cpp",
"            return run(desc::affine_sample2d(dim, outer_value, type), {x, size, affine});",
"""            // zero is what samples outside have anyway
            if (outer_value == 0) return affine_on_sample2d(x, size, affine, dim, type);
            return run(desc::affine_sample2d(dim, outer_value, type), {x, size, affine});""")],
"ts_intime_affine_sample2d with outer value 0 and an affine that leaves the image.",
"Samples outside of the image take the edge's values instead of 0.",
'''
wb = t.new_Workbench(t.cpup)
t.Workbench_setup_context(wb)
x = np.arange(1, 17, dtype=np.float32).reshape(1, 4, 4, 1)
for outer in (0, 2.5):
    for shift in (0, 2, -2):
        a = np.array([[1, 0, shift], [0, 1, 0], [0, 0, 1]], np.float32)
        h = [t.new(v) for v in (x, np.array([4, 4], np.int32), a)]
        y = t.intime_affine_sample2d(*h, -3, float(outer), 0)
        assert y, t.err()
        want = np.full_like(x, outer)
        for i in range(4):
            if 0 <= i + shift < 4:
                want[:, :, i] = x[:, :, i + shift]
        eq(t.peek(y).np(), want, 1e-5, f"outer {outer} shift {shift}")
''')

S("S29-vat-deprecated", "P24", [("src/memory/orz/vat.cpp",
"""        this->clean();
        m_deprecated = true;""",
"""        m_deprecated = true;""")],
"A flow controller that ends while one of its blocks is still in use and others are free.",
"Its free blocks stay allocated for as long as the one block in use is held (an output tensor kept keeps all working memory of its workbench).",
cpp='''#include "memory/flow.h"
#include "global/hard_allocator.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <unordered_map>
static std::unordered_map<void *, size_t> g_blocks;
static size_t held() { size_t n = 0; for (auto &b : g_blocks) n += b.second; return n; }
static void *counted(int, size_t n, void *mem, size_t) {
    if (mem) { g_blocks.erase(mem); std::free(mem); }
    if (!n) return nullptr;
    void *p = std::malloc(n);
    g_blocks[p] = n;
    return p;
}
int main() {
    ts::HardAllocator::Register("s29", counted);
    int bad = 0;
    for (int k = 0; k < 3; ++k) {
        auto ctl = std::make_shared<ts::VatMemoryController>(ts::MemoryDevice("s29", 0));
        ts::Memory keep = ctl->alloc(64);
        std::memset(keep.data(), 7, 64);
        { ts::Memory a = ctl->alloc(1000), b = ctl->alloc(5000); }
        if (k) ctl->alloc(300);
        ctl.reset();
        if (held() != 64) { std::printf("%d bytes held, 64 in use\\n", int(held())); bad = 1; }
        for (int i = 0; i < 64; ++i) bad |= static_cast<char *>(keep.data())[i] != 7;
        keep = ts::Memory();
        if (held() != 0) { std::printf("%d bytes held, none in use\\n", int(held())); bad = 1; }
    }
    return bad;
}
''')

S("S30-filter-compiled", "P30", [("src/runtime/image_filter.cpp",
"""        if (m_impl->m_compiled) return;
        if (m_impl->m_graph->nodes().size() > 1) {""",
"""        if (m_impl->m_compiled) return;
        m_impl->m_compiled = true;
        if (m_impl->m_graph->nodes().size() > 1) {"""), ("src/runtime/image_filter.cpp",
"""            m_impl->m_program = Program::Compile(module, m_impl->m_computing_device);
        }
        m_impl->m_compiled = true;
    }""",
"""            m_impl->m_program = Program::Compile(module, m_impl->m_computing_device);
        }
    }""")],
"No memory while an image filter is compiled, and memory again at its next use.",
"The filter counts as compiled without a program: it gives its input back unchanged.",
cpp='''#include "runtime/image_filter.h"
#include "runtime/workbench.h"
#include "global/hard_allocator.h"
#include "core/tensor_builder.h"
#include "utils/ctxmgr_lite.h"
#include <cstdio>
#include <vector>
using namespace ts;
static HardAllocator::function g_base;
static int g_left = -1;
static void *failing(int id, size_t n, void *mem, size_t old) {
    if (n && g_left >= 0 && g_left-- == 0) throw OutOfMemoryException(MemoryDevice(CPU, id), n);
    return g_base(id, n, mem, old);
}
int main() {
    g_base = HardAllocator::Query(CPU);
    HardAllocator::Register(CPU, failing);
    ComputingDevice cpu(CPU, 0);
    std::vector<float> v(2 * 3 * 1);
    for (size_t i = 0; i < v.size(); ++i) v[i] = float(i) + 1;
    int bad = 0, failed = 0;
    for (int k = 0; k < 60; ++k) {
        Workbench bench(cpu);
        ctx::bind<Workbench> _bind(bench);
        ImageFilter filter(cpu);
        filter.scale(2);
        filter.sub_mean({1});
        Tensor x = tensor::build(FLOAT32, Shape({2, 3, 1}), v);
        g_left = k;
        try { filter.run(x); } catch (const std::exception &) { ++failed; }
        g_left = -1;
        try {
            Tensor y = tensor::cast(FLOAT32, filter.run(x));
            for (int i = 0; i < 6; ++i) if (y.data<float>()[i] != v[i] * 2 - 1) {
                std::printf("refused request %d: element %d is %g, not %g\\n", k, i, y.data<float>()[i], v[i] * 2 - 1);
                bad = 1;
                break;
            }
        } catch (const std::exception &e) { std::printf("refused request %d: %s\\n", k, e.what()); bad = 1; }
    }
    if (!failed) { std::printf("no request was refused\\n"); bad = 1; }
    return bad;
}
''')


INFER_PRE = '''#include "module/module.h"
#include "module/menu.h"
#include "runtime/inferer.h"
#include "runtime/workbench.h"
#include "runtime/stack.h"
#include "core/tensor_builder.h"
#include <cstdio>
#include <vector>
using namespace ts;
'''

S("S31-infer-pool", "P08", [("src/runtime/inferer/factory.cpp",
"return int32_t(std::ceil((x + padding - kernel) / float(stride) + 1));",
"return int32_t((x + padding - kernel) / stride + 1);")],
"Static inference of a pooling whose stride does not divide the way the kernel goes.",
"Inference rounds down, pooling rounds up: the size inferred is one less than the size produced.",
cpp=INFER_PRE + '''
int main() {
    int bad = 0;
    for (int h = 3; h < 12; ++h) for (int k = 1; k < 4; ++k) for (int s = 1; s < 5; ++s) {
        Graph g;
        ctx::bind<Graph> _bind(g);
        auto x = bubble::param("x");
        x->set("#shape", tensor::build(INT32, {1, 2, h, 7}));
        x->set("#dtype", tensor::build(INT32, int32_t(FLOAT32)));
        auto y = bubble::op("y", "pooling2d", {x});
        y->set("format", tensor::from("NCHW"));
        y->set("type", tensor::from(0));
        y->set("padding", tensor::build(INT32, {4, 2}, {0, 0, 0, 0, 0, 0, 0, 0}));
        y->set("ksize", tensor::build(INT32, {1, 1, k, 2}));
        y->set("stride", tensor::build(INT32, {1, 1, s, 2}));
        auto p = infer(y);
        auto m = std::make_shared<Module>();
        m->load(g, {"y"});
        auto b = Workbench::Load(m, ComputingDevice(CPU, 0));
        std::vector<float> v(2 * h * 7, 1.f);
        b->input(0, tensor::build(FLOAT32, Shape({1, 2, h, 7}), v));
        b->run();
        auto o = b->output(0);
        if (p.dtype() != o.dtype() || p.sizes().size() != o.sizes().size()) { std::printf("type or rank\\n"); bad = 1; continue; }
        for (size_t i = 0; i < 4; ++i) if (p.sizes()[i] >= 0 && p.sizes()[i] != o.sizes()[i]) {
            std::printf("height %d kernel %d stride %d: %s inferred, %s produced\\n", h, k, s, to_string(p.sizes()).c_str(), to_string(o.sizes()).c_str());
            bad = 1;
            break;
        }
    }
    return bad;
}
''')

S("S32-topk-announced", "P08", [("src/backend/base/base_topkv2.cpp",
"""            Shape x_shape = x.sizes();
            auto K = std::min(x_shape.back(), m_number);
            x_shape.back() = K;

            output.resize(2);""",
"""            Shape x_shape = x.sizes();
            x_shape.back() = m_number;

            output.resize(2);""")],
"Asking topkv2 for its output sizes when fewer values than asked for are there.",
"The operator announces the number asked for; it gives as many values as there are.",
cpp=INFER_PRE + '''
int main() {
    int bad = 0;
    for (int n = 1; n < 6; ++n) for (int k = 1; k < 8; ++k) {
        Workbench b(ComputingDevice(CPU, 0));
        Bubble bubble("topkv2", "y");
        bubble.set("number", tensor::from(k));
        bubble.set("sorted", tensor::from(1));
        auto op = b.offline_create(bubble, false);
        std::vector<float> v(2 * n);
        for (size_t i = 0; i < v.size(); ++i) v[i] = float(i);
        std::vector<Tensor> in = {tensor::build(FLOAT32, Shape({2, n}), v)}, out;
        std::vector<Tensor::Prototype> p;
        b.offline_infer(op, in, p);
        b.offline_run(op, in, out);
        std::vector<Tensor> f;
        for (auto &t : out) for (size_t i = 0; i < t.fields_count(); ++i) f.push_back(t.field(i));
        if (p.size() != f.size()) { std::printf("%d announced, %d given\\n", int(p.size()), int(f.size())); bad = 1; continue; }
        for (size_t i = 0; i < f.size(); ++i) if (p[i].dtype() != f[i].dtype() || p[i].sizes() != f[i].sizes()) {
            std::printf("top %d of %d: %s announced, %s given\\n", k, n, to_string(p[i].sizes()).c_str(), to_string(f[i].sizes()).c_str());
            bad = 1;
        }
    }
    return bad;
}
''')

S("S33-refused-order", "P32", [("src/module/module.cpp",
"""            sorted_inputs.emplace_back(node);
            used_inputs.insert(node);
        }
""",
"""            sorted_inputs.emplace_back(node);
            used_inputs.insert(node);
        }
        m_inputs.swap(sorted_inputs);
"""), ("src/module/module.cpp",
"""            TS_LOG_ERROR(oss.str()) << eject;
        }
        m_inputs = sorted_inputs;
""",
"""            TS_LOG_ERROR(oss.str()) << eject;
        }
""")],
"A module whose inputs are sorted by names with one missing, which is refused, and used on.",
"The refused order stays: the module lost the input that was missing in it.",
cpp=INFER_PRE + '''
int main() {
    Graph g;
    ctx::bind<Graph> _bind(g);
    auto a = bubble::param("a"), b = bubble::param("b");
    auto y = bubble::op("y", "sub", {a, b});
    auto m = std::make_shared<Module>();
    m->load(g, {"y"});
    m->sort_inputs({"a", "b"});
    bool refused = false;
    try { m->sort_inputs({"b"}); } catch (const Exception &) { refused = true; }
    if (!refused) { std::printf("an order without all inputs was taken\\n"); return 1; }
    if (m->inputs().size() != 2 || m->inputs()[0]->name() != "a" || m->inputs()[1]->name() != "b") {
        std::printf("%d inputs after a refused order\\n", int(m->inputs().size()));
        return 1;
    }
    auto w = Workbench::Load(m, ComputingDevice(CPU, 0));
    w->input("a", tensor::from(5.f));
    w->input("b", tensor::from(2.f));
    w->run();
    return w->output(0).data<float>()[0] == 3.f ? 0 : 1;
}
''')

POOL_PRE = '''#include "runtime/inside/thread_pool.h"
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace ts;
'''

S("S34-pool-early-number", "P33", [("src/runtime/inside/thread_pool.cpp",
"""                after_task(id);
                this->recycling_thread(id);
""",
"""                this->recycling_thread(id);
                after_task(id);
""")],
"A pool is joined while the task that follows the last one is still running.",
"The number is given back before the following task ended: join returns early, another task may run with the same number.",
cpp=POOL_PRE + '''
int main() {
    ThreadPool pool(2);
    for (int n = 0; n < 20; ++n) {
        std::atomic<int> done(0);
        for (int i = 0; i < 3; ++i)
            pool.run([](int) {}, [&](int) { std::this_thread::sleep_for(std::chrono::milliseconds(5)); ++done; });
        pool.join();
        int seen = done;
        while (done < 3) std::this_thread::yield();
        std::this_thread::sleep_for(std::chrono::milliseconds(1));
        if (seen != 3) { std::printf("joined with %d of 3 ended\\n", seen); return 1; }
    }
    return 0;
}
''')

S("S35-pool-wakes-one", "P33", [("src/runtime/inside/thread_pool.cpp",
"""        this->running_core.push_front(signet);
        running_core_cond.notify_all();
""",
"""        this->running_core.push_front(signet);
        running_core_cond.notify_one();
""")],
"One thread joins the pool while another is waiting to give it a task.",
"The free thread wakes only the joining thread, which goes on waiting; nobody wakes the one with the task.",
cpp=POOL_PRE + '''
int main() {
    std::thread([] { std::this_thread::sleep_for(std::chrono::seconds(30)); std::printf("stuck\\n"); std::fflush(stdout); _exit(1); }).detach();
    for (int n = 0; n < 200; ++n) {
        ThreadPool pool(1);
        std::atomic<int> done(0);
        auto task = [&](int) { std::this_thread::sleep_for(std::chrono::microseconds(400)); ++done; };
        pool.run(task);
        std::vector<std::thread> joins;
        for (int i = 0; i < 4; ++i) joins.emplace_back([&] { pool.join(); });
        std::thread giver([&] { for (int i = 0; i < 3; ++i) pool.run(task); });
        giver.join();
        for (auto &t : joins) t.join();
        pool.join();
        if (done != 4) { std::printf("%d of 4 done\\n", int(done)); _exit(1); }
    }
    _exit(0);
}
''')

S("S36-stack-erase-frame", "P34", [("src/runtime/stack.cpp",
"""        auto it = this->m_stack.begin() + relative2absolute(i);
        this->m_stack.erase(it);
""",
"""        auto it = i >= 0 ? this->m_stack.begin() + (m_base + i) : this->m_stack.begin() + (int(this->size()) + i);
        this->m_stack.erase(it);
""")],
"Erasing one tensor counted from the top of a stack whose frame does not begin at the bottom.",
"The size of the frame is counted from the bottom of the stack: a tensor of the frame below goes.",
cpp=INFER_PRE + '''
int main() {
    Stack s(MemoryDevice(CPU, 0));
    for (int i = 0; i < 6; ++i) s.push(tensor::from(i));
    s.push_base(3);
    s.erase(-2);
    std::vector<int> got, want = {3, 5};
    for (int i = 0; i < int(s.size()); ++i) got.push_back(tensor::to_int(*s.index(i)));
    s.pop_base();
    if (got != want || s.size() != 5) { std::printf("the wrong tensor went\\n"); return 1; }
    return 0;
}
''')

S("S37-block-shape-one-side", "P35", [("src/backend/base/base_batchtospace4d.cpp",
"""TS_AUTO_CHECK((m_block_shape[0] >= 1) && (m_block_shape[1] >= 1));""",
"""TS_AUTO_CHECK(m_block_shape[0] * m_block_shape[1] >= 0 && m_block_shape[0] >= 1);""")],
"A block that is 0 wide, of a height that is right.",
"Sizes are divided by the block's, which ends the process.",
py='''
pid = os.fork()
if pid == 0:
    try:
        x = param("x")
        data = enc_module([x], [Node("batch_to_space4d", [x], "b", {"crop": np.zeros((2, 2), np.int32), "block_shape": np.asarray([2, 0], np.int32)})])
        out(data, [np.ones((4, 1, 2, 2), np.float32)])
    except api.ApiError as e:
        print("refused")
    os._exit(0)
_, st = os.waitpid(pid, 0)
if st:
    print("ended with", st)
    sys.exit(1)
''')
