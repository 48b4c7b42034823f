"""ctypes binding of the public C API."""
import ctypes as C
import os
import numpy as np
from . import fmt

P = C.c_void_p
I32 = C.c_int32


class Device(C.Structure):
    _fields_ = [("type", C.c_char_p), ("id", I32)]


READ = C.CFUNCTYPE(C.c_uint64, P, P, C.c_uint64)
REWIND = C.CFUNCTYPE(None, P)

SIG = {
    "ts_last_error_message": (C.c_char_p,),
    "ts_set_error_message": (None, C.c_char_p),
    "ts_new_Tensor": (P, P, I32, I32, P),
    "ts_free_Tensor": (None, P),
    "ts_Tensor_shape": (C.POINTER(I32), P),
    "ts_Tensor_shape_size": (I32, P),
    "ts_Tensor_dtype": (I32, P),
    "ts_Tensor_data": (P, P),
    "ts_Tensor_clone": (P, P),
    "ts_Tensor_sync_cpu": (I32, P),
    "ts_Tensor_cast": (P, P, I32),
    "ts_Tensor_reshape": (P, P, P, I32),
    "ts_new_Tensor_in_flow": (P, I32, P, I32, I32, P),
    "ts_Tensor_view_in_flow": (P, P, I32),
    "ts_Tensor_field": (P, P, I32),
    "ts_Tensor_packed": (I32, P),
    "ts_Tensor_fields_count": (I32, P),
    "ts_Tensor_pack": (P, P, I32),
    "ts_Tensor_slice": (P, P, I32),
    "ts_Tensor_slice_v2": (P, P, I32, I32),
    "ts_Tensor_save": (I32, C.c_char_p, P),
    "ts_Tensor_load": (P, C.c_char_p),
    "ts_Module_Load": (P, C.c_char_p, I32),
    "ts_Module_LoadV2": (P, C.c_char_p, P, I32, I32),
    "ts_Module_LoadFromStream": (P, P, READ, I32),
    "ts_Module_LoadFromStreamV2": (P, P, READ, REWIND, P, I32, I32),
    "ts_free_Module": (None, P),
    "ts_Module_Fusion": (P, P, I32, P, I32),
    "ts_Workbench_Load": (P, P, P),
    "ts_Workbench_Load_v2": (P, P, P, C.c_char_p),
    "ts_free_Workbench": (None, P),
    "ts_Workbench_clone": (P, P),
    "ts_Workbench_input": (I32, P, I32, P),
    "ts_Workbench_input_by_name": (I32, P, C.c_char_p, P),
    "ts_Workbench_run": (I32, P),
    "ts_Workbench_output": (I32, P, I32, P),
    "ts_Workbench_output_by_name": (I32, P, C.c_char_p, P),
    "ts_Workbench_set_computing_thread_number": (I32, P, I32),
    "ts_Workbench_bind_filter": (I32, P, I32, P),
    "ts_Workbench_bind_filter_by_name": (I32, P, C.c_char_p, P),
    "ts_new_Workbench": (P, P),
    "ts_Workbench_setup": (I32, P, P),
    "ts_Workbench_setup_context": (I32, P),
    "ts_Workbench_compile": (P, P, P),
    "ts_Workbench_compile_v2": (P, P, P, C.c_char_p),
    "ts_Workbench_setup_device": (I32, P),
    "ts_Workbench_setup_runtime": (I32, P),
    "ts_Workbench_input_count": (I32, P),
    "ts_Workbench_output_count": (I32, P),
    "ts_Workbench_run_hook": (I32, P, P, I32),
    "ts_Workbench_set_operator_param": (I32, P, C.c_char_p, C.c_char_p, P),
    "ts_Workbench_summary": (C.c_char_p, P),
    "ts_Program_Compile": (P, P, P),
    "ts_Program_Compile_v2": (P, P, P, C.c_char_p),
    "ts_free_Program": (None, P),
    "ts_Program_clone": (P, P),
    "ts_Program_input_count": (I32, P),
    "ts_Program_output_count": (I32, P),
    "ts_Program_set_operator_param": (I32, P, C.c_char_p, C.c_char_p, P),
    "ts_new_ImageFilter": (P, P),
    "ts_free_ImageFilter": (None, P),
    "ts_ImageFilter_clear": (I32, P),
    "ts_ImageFilter_compile": (I32, P),
    "ts_ImageFilter_to_float": (I32, P),
    "ts_ImageFilter_scale": (I32, P, C.c_float),
    "ts_ImageFilter_sub_mean": (I32, P, P, I32),
    "ts_ImageFilter_div_std": (I32, P, P, I32),
    "ts_ImageFilter_resize": (I32, P, I32, I32),
    "ts_ImageFilter_resize_scalar": (I32, P, I32),
    "ts_ImageFilter_center_crop": (I32, P, I32, I32),
    "ts_ImageFilter_channel_swap": (I32, P, P, I32),
    "ts_ImageFilter_to_chw": (I32, P),
    "ts_ImageFilter_prewhiten": (I32, P),
    "ts_ImageFilter_letterbox": (I32, P, I32, I32, C.c_float),
    "ts_ImageFilter_divided": (I32, P, I32, I32, C.c_float),
    "ts_ImageFilter_run": (P, P, P),
    "ts_ImageFilter_letterbox_v2": (I32, P, I32, I32, C.c_float, I32),
    "ts_ImageFilter_resize_v2": (I32, P, I32, I32, I32),
    "ts_ImageFilter_resize_scalar_v2": (I32, P, I32, I32),
    "ts_ImageFilter_force_color": (I32, P),
    "ts_ImageFilter_force_gray": (I32, P),
    "ts_ImageFilter_force_gray_v2": (I32, P, P, I32),
    "ts_ImageFilter_norm_image": (I32, P, C.c_float),
    "ts_ImageFilter_module": (P, P),
    "ts_intime_transpose": (P, P, P, I32),
    "ts_intime_sigmoid": (P, P),
    "ts_intime_gather": (P, P, P, I32),
    "ts_intime_concat": (P, P, I32, I32),
    "ts_intime_softmax": (P, P, I32, I32),
    "ts_intime_pad": (P, P, P, C.c_float),
    "ts_intime_cast": (P, P, I32),
    "ts_intime_resize2d": (P, P, P, I32),
    "ts_intime_affine_sample2d": (P, P, P, P, I32, C.c_float, I32),
    "ts_intime_affine_on_sample2d": (P, P, P, P, I32, I32),
    "ts_intime_memcpy": (C.c_int64, P, P, C.c_int64, P, P, C.c_int64, C.c_int64),
    "ts_intime_matmul": (P, P, P, I32),
    "ts_Operator_Register": (None, C.c_char_p, C.c_char_p, P, P, P, P, P),
    "ts_Operator_RegisterEx": (None, C.c_char_p, C.c_char_p, P, P, P, P, P),
    "ts_OperatorParams_get": (P, P, C.c_char_p),
    "ts_Operator_Throw": (None, C.c_char_p),
}


class ApiError(Exception):
    pass


class Stream:
    """python byte stream usable as ts_stream_read / rewind"""

    def __init__(self, data):
        self.data, self.pos = data, 0
        self.r = READ(self._read)
        self.w = REWIND(self._rewind)

    def _read(self, obj, dst, n):
        k = min(n, len(self.data) - self.pos)
        if k > 0:
            C.memmove(dst, self.data[self.pos:self.pos + k], k)
            self.pos += k
        return max(k, 0)

    def _rewind(self, obj):
        self.pos = 0


class Tennis:
    def __init__(self, path):
        self.dll = C.CDLL(path, mode=C.RTLD_GLOBAL)
        for k, s in SIG.items():
            f = getattr(self.dll, k)
            f.restype, f.argtypes = s[0], list(s[1:])
            setattr(self, k[3:], f)
        self.cpu = Device(b"cpu", 0)
        self.cpup = C.cast(C.byref(self.cpu), P)

    def err(self):
        m = self.last_error_message()
        return (m or b"").decode("latin1")

    # ------------------------------------------------------------ tensors
    def new(self, x, dtype=None):
        x = fmt.t(x, dtype)
        sh = (I32 * max(1, len(x.shape)))(*x.shape)
        buf = C.create_string_buffer(x.data, max(1, len(x.data)))
        h = self.new_Tensor(C.cast(sh, P), len(x.shape), x.dtype, C.cast(buf, P))
        if not h:
            raise ApiError("ts_new_Tensor: " + self.err())
        return h

    def pack(self, xs):
        hs = [self.new(x) for x in xs]
        arr = (P * max(1, len(hs)))(*hs)
        h = self.Tensor_pack(C.cast(arr, P), len(hs))
        for x in hs:
            self.free_Tensor(x)
        if not h:
            raise ApiError("ts_Tensor_pack: " + self.err())
        return h

    def peek(self, h):
        """raw view of field 0"""
        nd = self.Tensor_shape_size(h)
        p = self.Tensor_shape(h)
        sh = tuple(p[i] for i in range(nd))
        dt = self.Tensor_dtype(h)
        n = fmt.prod(sh) * fmt.BYTES[dt]
        d = C.string_at(self.Tensor_data(h), n) if n > 0 else b""
        return fmt.T(dt, sh, d)

    def get(self, h):
        """list of fields as T"""
        if not self.Tensor_sync_cpu(h):
            raise ApiError("sync_cpu: " + self.err())
        k = self.Tensor_fields_count(h)
        if k <= 1:
            return [self.peek(h)]
        out = []
        for i in range(k):
            f = self.Tensor_field(h, i)
            if not f:
                raise ApiError("field: " + self.err())
            out.append(self.peek(f))
            self.free_Tensor(f)
        return out

    def take(self, h, what=""):
        if not h:
            raise ApiError(what + ": " + self.err())
        try:
            return self.get(h)
        finally:
            self.free_Tensor(h)

    # ------------------------------------------------------------ modules
    def module(self, data):
        s = Stream(data)
        h = self.Module_LoadFromStream(C.c_void_p(1), s.r, 0)
        if not h:
            raise ApiError("ts_Module_LoadFromStream: " + self.err())
        return h

    def bench(self, module, options=None):
        if options is None:
            h = self.Workbench_Load(module, self.cpup)
        else:
            h = self.Workbench_Load_v2(module, self.cpup, options.encode())
        if not h:
            raise ApiError("ts_Workbench_Load: " + self.err())
        return h

    def set_input(self, wb, i, x):
        h = x if isinstance(x, int) else (self.pack(x) if isinstance(x, (list, tuple)) else self.new(x))
        try:
            if isinstance(i, (str, bytes)):
                ok = self.Workbench_input_by_name(wb, i.encode() if isinstance(i, str) else i, h)
            else:
                ok = self.Workbench_input(wb, i, h)
        finally:
            if not isinstance(x, int):
                self.free_Tensor(h)
        if not ok:
            raise ApiError("ts_Workbench_input: " + self.err())

    def run(self, wb):
        if not self.Workbench_run(wb):
            raise ApiError("ts_Workbench_run: " + self.err())

    def output(self, wb, i):
        # a fresh void tensor receives the output
        sh = (I32 * 1)(0)
        h = self.new_Tensor(C.cast(sh, P), 1, fmt.INT8, None)
        try:
            if isinstance(i, (str, bytes)):
                ok = self.Workbench_output_by_name(wb, i.encode() if isinstance(i, str) else i, h)
            else:
                ok = self.Workbench_output(wb, i, h)
            if not ok:
                raise ApiError("ts_Workbench_output: " + self.err())
            return self.get(h)
        finally:
            self.free_Tensor(h)

    def exec(self, data, inputs, options=None, threads=None, nout=None):
        """load module bytes, run once, return list of outputs (each a list of fields)"""
        m = self.module(data)
        try:
            wb = self.bench(m, options)
        finally:
            self.free_Module(m)
        try:
            if threads:
                self.Workbench_set_computing_thread_number(wb, threads)
            for i, x in enumerate(inputs):
                self.set_input(wb, i, x)
            self.run(wb)
            n = self.Workbench_output_count(wb)
            return [self.output(wb, i) for i in range(n)]
        finally:
            self.free_Workbench(wb)


def op_module(op, inputs, params, consts=()):
    """bytes of a one-operator module. inputs: count; consts: {index: tensor} given as constants"""
    consts = dict(consts)
    ins, args = [], []
    for i in range(inputs):
        if i in consts:
            args.append(fmt.const(consts[i], f"c{i}"))
        else:
            p = fmt.param(f"x{i}")
            ins.append(p)
            args.append(p)
    n = fmt.Node(op, args, "y", params)
    return fmt.enc_module(ins, [n])
