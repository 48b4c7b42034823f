// C++-only surface of modules: saving, graph walking
#include "api/declare_module.h"
#include "api/declare_tensor.h"
#include "module/io/sstream.h"
#include "module/io/fstream.h"
#include "module/header.h"
#include "module/bubble.h"
#include "module/menu.h"
#include "module/serialization.h"
#include <cstring>
#include <string>
using namespace ts;
static thread_local std::string g_buf, g_err;
#define G(...) try { __VA_ARGS__ } catch (const std::exception &e) { g_err = e.what(); return -1; }
extern "C" {
const char *tv_err() { return g_err.c_str(); }
const char *tv_buf() { return g_buf.data(); }
// module -> bytes
int64_t tv_module_save(const ts_Module *m) {
    G(StringStreamWriter w; Module::Save(w, m->pointer); g_buf = w.str(); return int64_t(g_buf.size());)
}
int64_t tv_module_save_file(const ts_Module *m, const char *path) {
    G(Module::Save(std::string(path), m->pointer); return 0;)
}
// every node of the module as a name list, inputs / outputs
int64_t tv_module_names(const ts_Module *m, int which) {
    G(g_buf.clear();
      for (auto &n : which ? m->pointer->outputs() : m->pointer->inputs()) { g_buf += n->op(); g_buf += '\t'; g_buf += n->name(); g_buf += '\n'; }
      return int64_t(g_buf.size());)
}
ts_Module *tv_module_translate(const ts_Module *m, const char *options) {
    try { return new ts_Module(Module::Translate(m->pointer, ComputingDevice(CPU, 0), options)); } catch (const std::exception &e) { g_err = e.what(); return nullptr; }
}
// tensor -> bytes, bytes -> tensor (stream interface)
int64_t tv_tensor_ser(const ts_Tensor *t) {
    G(StringStreamWriter w; auto n = t->pointer->serialize(w); g_buf = w.str(); return n == g_buf.size() ? int64_t(n) : -2;)
}
// returns the number of bytes read
int64_t tv_tensor_ext(ts_Tensor *t, const char *data, int64_t n) {
    G(StringStreamReader r(std::string(data, size_t(n))); return int64_t(t->pointer->externalize(r));)
}
// one bubble: bytes -> Bubble -> (copy / move / assign chain) -> bytes
int64_t tv_bubble(const char *data, int64_t n, int mode) {
    G(StringStreamReader r(std::string(data, size_t(n))); Bubble b; b.externalize(r);
      StringStreamWriter w;
      switch (mode) {
          case 0: b.serialize(w); break;
          case 1: { Bubble c(b); c.serialize(w); break; }
          case 2: { Bubble c(std::move(b)); c.serialize(w); break; }
          case 3: { Bubble c; c = b; c.serialize(w); break; }
          case 4: { Bubble c; c = std::move(b); c.serialize(w); break; }
          case 5: { Bubble c(b); Bubble d(std::move(c)); if (!(d.shape() == b.shape())) { g_err = "shape lost on move"; return -3; } d.serialize(w); break; }
          default: { Bubble c; c = b; Bubble d; d = std::move(c); if (d.shape() != b.shape() || d.op() != b.op() || d.name() != b.name() || d.dtype() != b.dtype()) { g_err = "field lost on move"; return -3; } d.serialize(w); }
      }
      g_buf = w.str(); return int64_t(g_buf.size());)
}
int tv_bubble_info(const char *data, int64_t n, int32_t *out, int cap) {
    // [op len, name len, dtype, nd, dims...]
    G(StringStreamReader r(std::string(data, size_t(n))); Bubble b; b.externalize(r);
      g_buf = b.op() + "\t" + b.name(); auto s = b.shape(); out[0] = b.dtype(); out[1] = int(s.size());
      for (size_t i = 0; i < s.size() && int(i) + 2 < cap; ++i) out[i + 2] = s[i]; return int(g_buf.size());)
}
}
