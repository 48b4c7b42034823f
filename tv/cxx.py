"""The C API replaced by the C++ wrapper classes (shim/cpp.cpp), so that any check can be driven through them."""
import ctypes as C
from . import api

# not part of the C++ classes, or without anything to wrap
SKIP = {"ts_last_error_message", "ts_set_error_message", "ts_Module_LoadV2", "ts_Module_LoadFromStreamV2", "ts_Operator_Register",
        "ts_Operator_RegisterEx", "ts_OperatorParams_get", "ts_Operator_Throw"}


class Cx(api.Tennis):
    def __init__(self, lib, shim):
        super().__init__(lib)
        d = self.cx = C.CDLL(shim)
        d.cx_err.restype = C.c_char_p
        d.cx_mode.argtypes = [C.c_uint]
        d.cx_buf.restype = api.P
        d.cx_to.restype, d.cx_to.argtypes = C.c_int64, [api.P, C.c_int]
        d.cx_output.restype, d.cx_output.argtypes = api.P, [api.P, api.I32, C.c_char_p]
        d.cx_build.restype, d.cx_build.argtypes = api.P, [C.c_int, C.c_int, api.P, api.I32, C.c_int, api.P, C.c_int64]
        d.cx_from_str.restype, d.cx_from_str.argtypes = api.P, [C.c_char_p, C.c_int64, C.c_int]
        d.cx_type_str.restype = C.c_char_p
        d.cx_Tensor_count.argtypes = [api.P]
        for k, s in api.SIG.items():
            if k in SKIP:
                continue
            f = getattr(d, "cx_" + k[3:])
            f.restype, f.argtypes = s[0], list(s[1:])
            setattr(self, k[3:], f)

    def mode(self, m):
        self.cx.cx_mode(m)

    def err(self):
        return self.cx.cx_err().decode("latin1")

    def output(self, wb, i):
        # the C++ class also returns the output itself
        self.n = getattr(self, "n", 0) + 1
        if self.n % 2:
            return super().output(wb, i)
        h = self.cx.cx_output(wb, i if isinstance(i, int) else 0, None if isinstance(i, int) else i.encode() if isinstance(i, str) else i)
        return self.take(h, "Workbench::output")
