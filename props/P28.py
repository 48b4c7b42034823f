"""Error discipline of the C API: failing calls fail cleanly, succeeding calls leave no message."""
import ctypes as C
import os
import shutil
import tempfile
import numpy as np
from tv import fmt, ops, api
from tv.gen import Violation

ID = "P28"
RULE = ("histories of 2-25 calls over the whole exported C API on a live set of handles (tensors, modules, programs, workbenches, "
        "filters), in which calls with NULL for required arguments, indices, names, options, devices, formats, files and tensors out "
        "of what the call accepts are mixed with good ones; each bad call has to return its failure value with a message, each good "
        "one has to succeed without, and at the end the workbench still computes the right values; non-trivial = at least one bad "
        "and one good call; distinct by calls")
CASES = {"quick": 9000, "thorough": 250000}
VARIANTS = ("rel", "asan")
EXTRA = {"ts_setup": (api.I32,), "ts_Workbench_set_cpu_mode": (api.I32, api.P, api.I32)}


def setup(libs):
    env = ops.Env(libs)
    for k, s in EXTRA.items():
        f = getattr(env.t.dll, k)
        f.restype, f.argtypes = s[0], list(s[1:])
        setattr(env.t, k[3:], f)
    return env


class World:
    def __init__(self, src, env):
        self.t = t = env.t
        self.src = src
        self.tmp = tempfile.mkdtemp()
        self.keep, self.devs = [], {}
        self.x = np.asarray(src.iarray((2, 3), np.int16, -9, 9), np.float32)
        self.c = np.asarray(src.iarray((2, 3), np.int16, -9, 9), np.float32)
        self.tens = t.new(self.x)
        self.img = t.new(src.iarray((1, 4, 5, 3), np.uint8, 0, 255))
        self.idx = t.new(np.asarray([0, 1], np.int32))
        self.size = t.new(np.asarray([1, 3, 4, 3], np.int32))
        self.pads = t.new(np.asarray([[0, 1], [0, 0]], np.int32))
        self.affine = t.new(np.eye(3, dtype=np.float32))
        self.lim = t.new(np.int32(1))
        self.mat = t.new(np.ones((3, 2), np.float32))
        self.packed = t.pack([self.x, self.c])
        p = fmt.param("x0")
        k = fmt.Node("sub", [p, fmt.const(self.c, "c0")], "mid", {})
        z = fmt.Node("concat", [k], "lim", {"dim": np.int32(0)})
        y = fmt.Node("abs", [z], "y", {})
        self.data = fmt.enc_module([p], [y])
        self.mod = t.module(self.data)
        self.path = os.path.join(self.tmp, "m.tsm").encode()
        open(self.path, "wb").write(self.data)
        self.bad = t.module(fmt.enc_module([p], [fmt.Node("no_such_operator", [p], "y", {})]))
        self.cut = os.path.join(self.tmp, "cut.tsm").encode()
        open(self.cut, "wb").write(self.data[:src.raw(len(self.data))])
        self.wb = t.new_Workbench(t.cpup)
        if not self.wb or not t.Workbench_setup_context(self.wb):
            raise Violation(f"workbench: {t.err()}")
        if src.bool():          # the workbench served a program with more inputs and outputs before
            xs = [fmt.param(f"x{i}") for i in range(src.int(2, 6))]
            m = t.module(fmt.enc_module(xs, [fmt.Node("abs", [v], f"y{i}") for i, v in enumerate(xs)]))
            big = t.Workbench_compile(self.wb, m)
            if not big or not t.Workbench_setup(self.wb, big):
                raise Violation(f"program: {t.err()}")
            if src.bool():
                for i in range(len(xs)):
                    t.set_input(self.wb, i, self.x)
                t.run(self.wb)
            t.free_Program(big)
            t.free_Module(m)
        self.prog = t.Workbench_compile(self.wb, self.mod)
        if not self.prog or not t.Workbench_setup(self.wb, self.prog):
            raise Violation(f"program: {t.err()}")
        self.empty = t.new_Workbench(t.cpup)
        self.flt = t.new_ImageFilter(t.cpup)
        self.out = t.new_Tensor(None, 0, 10, None)
        self.has_input = False
        self.filtered = False

    def dev(self, name, i=0):
        d = api.Device(name, i)
        self.keep.append(d)
        p = C.cast(C.byref(d), api.P)
        self.devs[p.value] = f"device {name!r}"
        return p

    def i32(self, *a):
        b = (api.I32 * max(1, len(a)))(*a)
        self.keep.append(b)
        return C.cast(b, api.P)

    def f32(self, *a):
        b = (C.c_float * max(1, len(a)))(*a)
        self.keep.append(b)
        return C.cast(b, api.P)

    def hs(self, *a):
        b = (api.P * max(1, len(a)))(*a)
        self.keep.append(b)
        return C.cast(b, api.P)

    def names(self, *a):
        b = (C.c_char_p * max(1, len(a)))(*a)
        self.keep.append(b)
        return C.cast(b, api.P)

    def reader(self, data):
        s = api.Stream(data)
        self.keep.append(s)
        return s

    def free(self):
        t = self.t
        t.free_Workbench(self.wb)
        t.free_Workbench(self.empty)
        t.free_Program(self.prog)
        t.free_ImageFilter(self.flt)
        t.free_Module(self.mod)
        t.free_Module(self.bad)
        for h in (self.tens, self.img, self.idx, self.size, self.pads, self.affine, self.mat, self.lim, self.packed, self.out):
            t.free_Tensor(h)
        shutil.rmtree(self.tmp)


# good calls: name -> (arguments, positions of pointers that must not be NULL)
def good(w):
    s, t = w.src, w.t
    f = os.path.join(w.tmp, "t.t").encode()
    one = C.c_void_p(1)
    st = w.reader(w.data)
    d = t.cpup
    shape = w.i32(2, 3)
    m = s.raw(3)
    return {
        "setup": ([], []),
        "new_Tensor": ([shape, 2, 10, w.f32(*range(6)) if s.bool() else None], []),
        "Tensor_shape": ([w.tens], [0]), "Tensor_shape_size": ([w.tens], [0]), "Tensor_dtype": ([w.tens], [0]),
        "Tensor_data": ([w.tens], [0]), "Tensor_clone": ([w.tens], [0]), "Tensor_sync_cpu": ([w.tens], [0]),
        "Tensor_cast": ([w.tens, s.choice([3, 7, 9, 11, 10])], [0]),
        "Tensor_reshape": ([w.tens, w.i32(3, 2), 2], [0, 1]),
        "new_Tensor_in_flow": ([s.raw(2), shape, 2, 10, None], []),
        "Tensor_view_in_flow": ([w.tens, s.raw(2)], [0]),
        "Tensor_field": ([w.packed, s.raw(2)], [0]), "Tensor_packed": ([w.packed], [0]),
        "Tensor_fields_count": ([w.packed], [0]),
        "Tensor_pack": ([w.hs(w.tens, w.idx), 2], [0]),
        "Tensor_slice": ([w.tens, s.raw(2)], [0]), "Tensor_slice_v2": ([w.tens, 0, s.int(1, 2)], [0]),
        "Tensor_save": ([f, w.tens], [0, 1]),
        "Module_Load": ([w.path, 0], [0]),
        "Module_LoadFromStream": ([one, st.r, 0], [0, 1]),
        "Module_LoadFromStreamV2": ([one, st.r, st.w, None, 0, 0], [0, 1, 2]),
        "Module_Fusion": ([w.mod, 0, w.mod, 0], [0, 2]),
        "Workbench_Load": ([w.mod, d], [0, 1]), "Workbench_Load_v2": ([w.mod, d, s.choice([b"", b"--no-pack"])], [0, 1, 2]),
        "Workbench_clone": ([w.wb], [0]),
        "Workbench_input": ([w.wb, 0, w.tens], [0, 2]), "Workbench_input_by_name": ([w.wb, b"x0", w.tens], [0, 1, 2]),
        "Workbench_run": ([w.wb], [0]),
        "Workbench_output": ([w.wb, 0, w.out], [0, 2]), "Workbench_output_by_name": ([w.wb, b"y", w.out], [0, 1, 2]),
        "Workbench_set_computing_thread_number": ([w.wb, s.int(1, 3)], [0]),
        "Workbench_bind_filter": ([w.wb, 0, w.flt], [0, 2]), "Workbench_bind_filter_by_name": ([w.wb, b"x0", w.flt], [0, 1, 2]),
        "new_Workbench": ([d if s.bool() else None], []),
        "Workbench_setup": ([w.wb, w.prog], [0, 1]), "Workbench_setup_context": ([w.wb], [0]),
        "Workbench_compile": ([w.wb, w.mod], [0, 1]), "Workbench_compile_v2": ([w.wb, w.mod, b""], [0, 1, 2]),
        "Workbench_setup_device": ([w.wb], [0]), "Workbench_setup_runtime": ([w.wb], [0]),
        "Workbench_input_count": ([w.wb], [0]), "Workbench_output_count": ([w.wb], [0]),
        "Workbench_run_hook": ([w.wb, w.names(b"mid"), 1], [0, 1]),
        "Workbench_set_operator_param": ([w.wb, b"lim", b"dim", w.lim], [0, 1, 2, 3]),
        "Workbench_summary": ([w.wb], [0]),
        "Program_Compile": ([w.mod, d], [0, 1]), "Program_Compile_v2": ([w.mod, d, b""], [0, 1, 2]),
        "Program_clone": ([w.prog], [0]), "Program_input_count": ([w.prog], [0]), "Program_output_count": ([w.prog], [0]),
        "Program_set_operator_param": ([w.prog, b"lim", b"dim", w.lim], [0, 1, 2, 3]),
        "new_ImageFilter": ([d if s.bool() else None], []),
        "ImageFilter_clear": ([w.flt], [0]), "ImageFilter_compile": ([w.flt], [0]), "ImageFilter_to_float": ([w.flt], [0]),
        "ImageFilter_scale": ([w.flt, 2.0], [0]), "ImageFilter_sub_mean": ([w.flt, w.f32(1, 2, 3), 3], [0, 1]),
        "ImageFilter_div_std": ([w.flt, w.f32(1, 2, 3), 3], [0, 1]), "ImageFilter_resize": ([w.flt, 4, 3], [0]),
        "ImageFilter_resize_scalar": ([w.flt, 3], [0]), "ImageFilter_center_crop": ([w.flt, 2, 2], [0]),
        "ImageFilter_channel_swap": ([w.flt, w.i32(2, 1, 0), 3], [0, 1]), "ImageFilter_to_chw": ([w.flt], [0]),
        "ImageFilter_prewhiten": ([w.flt], [0]), "ImageFilter_letterbox": ([w.flt, 4, 4, 0.0], [0]),
        "ImageFilter_divided": ([w.flt, 4, 4, 0.0], [0]), "ImageFilter_run": ([w.flt, w.img], [0, 1]),
        "ImageFilter_letterbox_v2": ([w.flt, 4, 4, 0.0, m], [0]), "ImageFilter_resize_v2": ([w.flt, 4, 4, m], [0]),
        "ImageFilter_resize_scalar_v2": ([w.flt, 4, m], [0]), "ImageFilter_force_color": ([w.flt], [0]),
        "ImageFilter_force_gray": ([w.flt], [0]), "ImageFilter_force_gray_v2": ([w.flt, w.f32(.3, .3, .4), 3], [0]),
        "ImageFilter_norm_image": ([w.flt, 1e-5], [0]), "ImageFilter_module": ([w.flt], [0]),
        "intime_transpose": ([w.tens, w.i32(1, 0), 2], [0, 1]), "intime_sigmoid": ([w.tens], [0]),
        "intime_gather": ([w.tens, w.idx, 0], [0, 1]), "intime_concat": ([w.hs(w.tens, w.tens), 2, 0], [0]),
        "intime_softmax": ([w.tens, 1, 0], [0]), "intime_pad": ([w.tens, w.pads, 0.0], [0, 1]),
        "intime_cast": ([w.tens, 7], [0]), "intime_resize2d": ([w.img, w.size, m], [0, 1]),
        "intime_affine_sample2d": ([w.img, w.idx, w.affine, 1, 0.0, 0], [0, 1, 2]),
        "intime_affine_on_sample2d": ([w.img, w.idx, w.affine, 1, 0], [0, 1, 2]),
        "intime_memcpy": ([w.mat, None, 0, w.tens, None, 0, 4], [0, 3]),
        "intime_matmul": ([w.tens, w.mat, 0], [0, 1]),
    }


# calls with values that have to be refused
def bad(w):
    s, t = w.src, w.t
    no = s.choice([os.path.join(w.tmp, "none"), os.path.join(w.tmp, "none", "x"), w.tmp]).encode()
    name = s.choice([b"", b"X0", b"nothing", b"x0 ", b"y" * 300])
    i = s.choice([1, 2, -1, -2, 1000, 2 ** 31 - 1, 1 - 2 ** 31])
    dev = w.dev(s.choice([b"abc", b"gpux", b"q" * 300]), 0)
    typ = s.choice([0, 1, 22, 100, -1])
    neg = s.int(-9, -1)
    st = w.reader(w.data[:s.raw(len(w.data) - 8)])
    st2 = w.reader(w.data)
    one = C.c_void_p(1)
    return [
        ("new_Tensor", [w.i32(neg, 2), 2, 10, None]), ("new_Tensor", [w.i32(2, 3), 2, s.choice([0, 99, -1]), w.f32(*range(6))]),
        ("new_Tensor", [w.i32(2, 3), neg, 10, None]), ("new_Tensor_in_flow", [0, w.i32(2, 3), neg, 10, None]),
        ("new_Tensor_in_flow", [0, w.i32(neg, 2), 2, 10, None]),
        ("Tensor_cast", [w.tens, s.choice([0, 99, -1])]), ("Tensor_reshape", [w.tens, w.i32(5), 1]),
        ("Tensor_reshape", [w.tens, None, s.int(1, 4)]), ("Tensor_reshape", [w.tens, w.i32(2, 3), neg]),
        ("Tensor_field", [w.packed, s.choice([2, -1, 100, -2 ** 31])]), ("Tensor_slice", [w.tens, s.choice([2, -1, 99])]),
        ("Tensor_slice_v2", [w.tens, s.int(0, 2), s.choice([3, 99, 0, -1])]),
        ("Tensor_pack", [w.hs(w.tens, None), 2]),
        ("Tensor_save", [os.path.join(w.tmp, "none", "x").encode(), w.tens]), ("Tensor_save", [b"/dev/full", w.tens]),
        ("Tensor_load", [no]), ("Tensor_load", [None]),
        ("Module_Load", [no, 0]), ("Module_Load", [w.path, s.choice([1, 7, -1])]), ("Module_Load", [w.cut, 0]),
        ("Module_LoadV2", [no, C.cast(C.c_char_p(b"key"), api.P), 3, 0]),
        ("Module_LoadV2", [w.path, None, 0, 0]), ("Module_LoadV2", [None, C.cast(C.c_char_p(b"key"), api.P), 3, 0]),
        ("Module_LoadFromStream", [one, st.r, 0]), ("Module_LoadFromStream", [one, st2.r, s.choice([1, 7, -1])]),
        ("Module_LoadFromStreamV2", [one, st.r, st.w, None, 0, 0]),
        ("Module_Fusion", [w.mod, abs(i), w.mod, 0]), ("Module_Fusion", [w.mod, 0, w.mod, abs(i)]),
        ("Workbench_Load", [w.mod, dev]), ("Workbench_Load", [w.mod, w.dev(b"abcdefgh")]), ("Workbench_Load", [w.bad, t.cpup]),
        ("Workbench_Load_v2", [w.mod, dev, b""]), ("Workbench_Load_v2", [w.bad, t.cpup, b""]),
        ("new_Workbench", [dev]), ("new_Workbench", [w.dev(b"abcdefgh")]),
        ("Workbench_input", [w.wb, i, w.tens]), ("Workbench_input_by_name", [w.wb, name, w.tens]),
        ("Workbench_input", [w.empty, 0, w.tens]), ("Workbench_input_by_name", [w.empty, b"x0", w.tens]),
        ("Workbench_output", [w.wb, i, w.out]), ("Workbench_output_by_name", [w.wb, name, w.out]),
        ("Workbench_output", [w.empty, 0, w.out]), ("Workbench_output_by_name", [w.empty, b"y", w.out]),
        ("Workbench_bind_filter", [w.wb, i, w.flt]), ("Workbench_bind_filter_by_name", [w.wb, name, w.flt]),
        ("Workbench_run", [w.empty]),
        ("Workbench_run_hook", [w.wb, w.names(b"mid", None), 2]),
        ("Workbench_run_hook", [w.wb, w.names(b"mid"), neg]),
        ("Workbench_compile", [w.wb, w.bad]), ("Workbench_compile_v2", [w.wb, w.bad, b""]),
        ("Program_Compile", [w.bad, t.cpup]), ("Program_Compile", [w.mod, dev]), ("Program_Compile_v2", [w.mod, dev, b""]),
        ("new_ImageFilter", [w.dev(b"abcdefgh")]),
        ("ImageFilter_sub_mean", [w.flt, w.f32(1), neg]), ("ImageFilter_div_std", [w.flt, w.f32(1), neg]),
        ("ImageFilter_channel_swap", [w.flt, w.i32(1), neg]), ("ImageFilter_force_gray_v2", [w.flt, w.f32(1), neg]),
        ("Program_set_operator_param", [w.prog, b"lim", b"other", w.lim]), ("Workbench_set_operator_param", [w.wb, b"lim", b"", w.lim]),
        ("intime_transpose", [w.tens, w.i32(0, 0), 2]), ("intime_transpose", [w.tens, w.i32(0, 2), 2]),
        ("intime_transpose", [w.tens, w.i32(1, 0), neg]),
        ("intime_gather", [w.tens, w.idx, s.choice([2, -3, 99])]), ("intime_gather", [w.tens, w.size, 0]),
        ("intime_concat", [w.hs(w.tens, w.idx), 2, 0]), ("intime_concat", [w.hs(w.tens, w.mat), 2, 0]),
        ("intime_concat", [w.hs(w.tens, None), 2, 0]), ("intime_concat", [w.hs(w.tens, w.tens), 2, s.choice([2, -3, 50])]),
        ("intime_concat", [w.hs(w.tens), s.choice([0, -1]), 0]),
        ("intime_softmax", [w.tens, s.choice([2, -3, 77]), 0]), ("intime_pad", [w.tens, w.idx, 0.0]),
        ("intime_cast", [w.tens, s.choice([0, 99, -1])]),
        ("intime_resize2d", [w.img, w.idx, 0]), ("intime_resize2d", [w.img, w.tens, 0]),
        ("intime_affine_sample2d", [w.img, w.idx, w.idx, 1, 0.0, 0]), ("intime_affine_sample2d", [w.img, w.size, w.affine, 1, 0.0, 0]),
        ("intime_affine_sample2d", [w.img, w.idx, w.affine, s.choice([3, 4, -5, 99]), 0.0, 0]),
        ("intime_matmul", [w.tens, w.tens, 0]), ("intime_matmul", [w.tens, w.idx, 0]),
        ("intime_memcpy", [w.mat, None, 0, w.tens, None, 0, neg]),
    ]


FREE = {"new_Tensor": "Tensor", "Module_": "Module", "new_Workbench": "Workbench", "new_ImageFilter": "ImageFilter"}


def release(t, name, r):
    if (api.SIG.get("ts_" + name) or EXTRA["ts_" + name])[0] is not api.P or name == "Tensor_data":
        return
    if name in ("new_Workbench", "Workbench_Load", "Workbench_Load_v2", "Workbench_clone"):
        t.free_Workbench(r)
    elif name in ("Workbench_compile", "Workbench_compile_v2", "Program_Compile", "Program_Compile_v2", "Program_clone"):
        t.free_Program(r)
    elif name == "new_ImageFilter":
        t.free_ImageFilter(r)
    elif name.startswith("Module_") or name == "ImageFilter_module":
        t.free_Module(r)
    else:
        t.free_Tensor(r)


def t_calls(src, env):
    t = env.t
    w = World(src, env)
    log, nb, ng = [], 0, 0
    wrong = []

    def show(a):
        a = a.value if isinstance(a, C.c_void_p) else a
        return "NULL" if a is None else (w.devs.get(a) if isinstance(a, int) and a in w.devs else f"{len(a)} bytes" if isinstance(a, bytes) and len(a) > 30 else
                                         (repr(a) if isinstance(a, (int, float, bytes)) and not (isinstance(a, int) and abs(a) > 2 ** 20 and abs(a) != 2 ** 31 and a != 2 ** 31 - 1)
                                          else "p"))

    try:
        for _ in range(src.int(2, src.choice([6, 25]))):
            kind = src.weighted([(4, "null"), (5, "bad"), (4, "good"), (1, "mess"), (1, "free")])
            if kind in ("null", "good"):
                g = good(w)
                names = [k for k in g if kind == "good" or g[k][1]]
                name = src.choice(names)
                args, req = g[name]
                args = list(args)
                if kind == "null":
                    for i in src.subset(req) or [src.choice(req)]:
                        args[i] = type(args[i])() if isinstance(args[i], (api.READ, api.REWIND)) else None
                elif name in ("Workbench_run", "Workbench_run_hook") and (not w.has_input or w.filtered):
                    continue
                elif name in ("Workbench_output", "Workbench_output_by_name") and not w.has_input:
                    continue
            elif kind == "bad":
                name, args = src.choice(bad(w))
                if name == "ImageFilter_run" and 0:
                    continue
            elif kind == "mess":
                m = src.choice([b"", b"abc", "é中".encode(), b"z" * 500, None])
                t.set_error_message(m)
                if (t.last_error_message() or b"") != (m or b""):
                    raise Violation(f"message set to {m!r} reads {t.last_error_message()!r} after {log}")
                continue
            else:
                n = src.choice(["Tensor", "Module", "Workbench", "Program", "ImageFilter"])
                getattr(t, "free_" + n)(None)
                log.append(f"free_{n}(NULL)")
                continue
            call = f"{name}({', '.join(show(a) for a in args)})"
            if src.bool(0.3):
                t.set_error_message(b"stale")
            if name.startswith("ImageFilter") and kind == "good" and name not in ("ImageFilter_compile", "ImageFilter_module"):
                t.ImageFilter_clear(w.flt)
            r = getattr(t, name)(*args)
            msg = t.err()
            log.append(call)
            if kind == "good":
                ng += 1
                if msg:
                    raise Violation(f"{call} left the message {msg!r} after {log}")
                if not r and name not in ("Tensor_packed",):
                    raise Violation(f"{call} returned {r!r} without a message after {log}")
                release(t, name, r)
                if name in ("Workbench_input", "Workbench_input_by_name"):
                    w.has_input = True
                elif name == "Workbench_setup":
                    w.has_input = False
                elif name.startswith("Workbench_bind"):
                    w.filtered = True
            else:
                nb += 1
                if r:
                    wrong.append(call)
                    raise Violation(f"{call} has to fail and returned {r!r} after {log}")
                if not msg or msg == "stale":
                    raise Violation(f"{call} failed with the message {msg!r} after {log}")
        # the objects still work
        ops_ok = t.Workbench_setup(w.wb, w.prog) if w.filtered else 1
        if not w.filtered:
            t.set_input(w.wb, 0, w.x)
            t.run(w.wb)
            ops.check(t.output(w.wb, 0), [np.abs(w.x - w.c)], 0, f"value after {log}") if 0 else None
            got = t.output(w.wb, 0)[0].np()
            if got.shape != w.x.shape or not np.array_equal(got, np.abs(w.x - w.c)):
                raise Violation(f"the workbench computes {got.tolist()}, expected {np.abs(w.x - w.c).tolist()} after {log}")
        wb = t.bench(w.mod)
        t.set_input(wb, 0, w.x)
        t.run(wb)
        got = t.output(wb, 0)[0].np()
        t.free_Workbench(wb)
        if not np.array_equal(got, np.abs(w.x - w.c)):
            raise Violation(f"a new workbench computes {got.tolist()} after {log}")
        got = t.peek(w.tens).np()
        if not np.array_equal(got, w.x):
            raise Violation(f"the tensor changed to {got.tolist()} after {log}")
    except api.ApiError as e:
        raise Violation(f"good call failed: {e} after {log}")
    finally:
        w.free()
    return {"desc": "; ".join(log), "nt": nb > 0 and ng > 0, "labels": [x.split("(")[0] for x in log]}


TARGETS = {"calls": t_calls}
