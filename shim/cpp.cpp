// the C++ wrapper classes behind functions with the signatures of the C API
#include <cstdint>
#include "api/cpp/tennis.h"
#include "api/cpp/operator.h"
#include "api/cpp/graphics2d.h"
#include <map>
#include <mutex>
#include <cstring>
#include <string>
using namespace ts::api;
static thread_local std::string g_err;
static thread_local unsigned g_mode;
static bool coin() { g_mode = g_mode * 1103515245u + 12345u; return (g_mode >> 16) & 1; }
template<typename T> struct Store {
    std::mutex m;
    std::map<void *, T> v;
    typename T::raw *keep(const T &x) { std::unique_lock<std::mutex> l(m); auto r = x.get_raw(); v.emplace(r, x); return r; }
    T at(const void *p) {
        std::unique_lock<std::mutex> l(m);
        auto it = v.find(const_cast<void *>(p));
        return it == v.end() ? T(nullptr) : it->second;
    }
    bool drop(const void *p) { std::unique_lock<std::mutex> l(m); return v.erase(const_cast<void *>(p)) > 0; }
};
static Store<Tensor> tens;
static Store<Module> mods;
static Store<Workbench> wbs;
static Store<Program> progs;
static Store<ImageFilter> fils;
static Tensor T(const void *p) {
    if (!p) return Tensor(nullptr);
    Tensor k = tens.at(p);
    return k == nullptr ? Tensor::BorrowedRef((ts_Tensor *) p) : k;
}
#define Z(bad, ...) g_err.clear(); try { __VA_ARGS__ } catch (const std::exception &e) { g_err = e.what(); if (g_err.empty()) g_err = "\001no message"; return bad; }
#define OK(...) Z(0, __VA_ARGS__; return 1;)
static Shape S(const int32_t *s, int32_t n) { return Shape(s, s + (n > 0 ? n : 0)); }
static Device D(const ts_Device *d) { Device a; Device b(d->type, d->id); if (coin()) { a = b; Device c(a); return c; } return b; }
struct Reader : public StreamReader {
    void *o; ts_stream_read *f;
    Reader(void *o, ts_stream_read *f) : o(o), f(f) {}
    uint64_t read(void *b, uint64_t n) override { return f(o, (char *) b, n); }
};
static DTYPE dt(int d) { return DTYPE(ts_DTYPE(d)); }
extern "C" {
const char *cx_err() { return g_err.c_str(); }
void cx_mode(unsigned m) { g_mode = m; }
// ---- tensors
ts_Tensor *cx_new_Tensor(const int32_t *s, int32_t n, int d, const void *x) { Z(nullptr, return tens.keep(Tensor(dt(d), S(s, n), x));) }
void cx_free_Tensor(ts_Tensor *t) { if (!tens.drop(t)) ts_free_Tensor(t); }
static thread_local Shape g_shape;
const int32_t *cx_Tensor_shape(ts_Tensor *t) { Z(nullptr, auto a = T(t); g_shape = a.sizes();
    for (int i = 0; i < a.dims(); ++i) if (a.size(i) != g_shape[i] || a.size(size_t(i)) != g_shape[i]) throw Exception("size(i) differs");
    int bad = 0; try { a.size(a.dims()); } catch (const Exception &) { bad = 1; } if (!bad) throw Exception("size past the end");
    bad = 0; try { a.size(-1); } catch (const Exception &) { bad = 1; } if (!bad) throw Exception("size(-1)");
    return g_shape.data();) }
int32_t cx_Tensor_shape_size(ts_Tensor *t) { Z(-1, return T(t).dims();) }
int32_t cx_Tensor_dtype(ts_Tensor *t) { Z(-1, return T(t).dtype().raw;) }
int32_t cx_Tensor_count(ts_Tensor *t) { Z(-1, return T(t).count();) }
void *cx_Tensor_data(ts_Tensor *t) { Z(nullptr, auto a = T(t); const Tensor &c = a; if (c.data() != a.data()) throw Exception("two data"); return a.data();) }
ts_Tensor *cx_Tensor_clone(ts_Tensor *t) { Z(nullptr, return tens.keep(T(t).clone());) }
int32_t cx_Tensor_sync_cpu(ts_Tensor *t) { OK(T(t).sync_cpu()) }
ts_Tensor *cx_Tensor_cast(ts_Tensor *t, int d) { Z(nullptr, return tens.keep(coin() ? T(t).cast(dt(d)) : tensor::cast(dt(d), T(t)));) }
ts_Tensor *cx_Tensor_reshape(ts_Tensor *t, const int32_t *s, int32_t n) { Z(nullptr, return tens.keep(T(t).reshape(S(s, n)));) }
ts_Tensor *cx_new_Tensor_in_flow(int f, const int32_t *s, int32_t n, int d, const void *x) {
    Z(nullptr, return tens.keep(coin() ? Tensor(ts_InFlow(f), dt(d), S(s, n), x) : Tensor(Tensor::InFlow(f), dt(d), S(s, n), x));) }
ts_Tensor *cx_Tensor_view_in_flow(ts_Tensor *t, int f) { Z(nullptr, return tens.keep(coin() ? T(t).view(ts_InFlow(f)) : T(t).view(Tensor::InFlow(f)));) }
ts_Tensor *cx_Tensor_field(ts_Tensor *t, int32_t i) { Z(nullptr, auto a = T(t);
    if (coin() && i >= 0 && i < a.fields_count()) { auto u = a.unpack(); if (int(u.size()) != a.fields_count()) throw Exception("unpack count"); return tens.keep(u[i]); }
    return tens.keep(a.field(i));) }
int32_t cx_Tensor_packed(ts_Tensor *t) { Z(0, return T(t).packed();) }
int32_t cx_Tensor_fields_count(ts_Tensor *t) { Z(0, return T(t).fields_count();) }
ts_Tensor *cx_Tensor_pack(ts_Tensor **f, int32_t n) { Z(nullptr, if (coin() && f && n >= 0) { std::vector<Tensor> v; for (int i = 0; i < n; ++i) v.push_back(T(f[i])); return tens.keep(Tensor::Pack(v)); }
    return tens.keep(Tensor::Pack(f, n));) }
ts_Tensor *cx_Tensor_slice(ts_Tensor *t, int32_t i) { Z(nullptr, return tens.keep(T(t).slice(i));) }
ts_Tensor *cx_Tensor_slice_v2(ts_Tensor *t, int32_t a, int32_t b) { Z(nullptr, return tens.keep(T(t).slice(a, b));) }
// builders and readers of values
ts_Tensor *cx_build(int how, int d, const int32_t *s, int32_t n, int from, const void *x, int64_t k) {
#define B(ID, TY) if (from == ID) { auto p = (const TY *) x; std::vector<TY> v(p, p + k); \
        switch (how) { case 0: return tens.keep(tensor::build(dt(d), v)); case 1: return tens.keep(tensor::build(dt(d), size_t(k), p)); \
        case 2: return tens.keep(tensor::build(dt(d), S(s, n), v)); case 3: return tens.keep(tensor::build(dt(d), S(s, n), p)); \
        case 4: return tens.keep(tensor::build(dt(d), v.at(0))); case 5: return tens.keep(tensor::from(v)); case 6: return tens.keep(tensor::from(v.at(0))); \
        case 7: return tens.keep(tensor_builder<TY>::build(v, S(s, n))); \
        case 8: return tens.keep(tensor::build<TY>(dt(d), {v.at(0), v.at(1), v.at(2)})); case 9: return tens.keep(tensor::build<TY>(dt(d), S(s, n), {v.at(0), v.at(1)})); } }
    Z(nullptr, B(TS_INT8, int8_t) B(TS_UINT8, uint8_t) B(TS_INT16, int16_t) B(TS_UINT16, uint16_t) B(TS_INT32, int32_t) B(TS_UINT32, uint32_t)
      B(TS_INT64, int64_t) B(TS_UINT64, uint64_t) B(TS_FLOAT32, float) B(TS_FLOAT64, double) return nullptr;)
}
ts_Tensor *cx_from_str(const char *s, int64_t n, int how) { Z(nullptr, return tens.keep(how ? tensor::from(s) : tensor::from(std::string(s, size_t(n))));) }
static thread_local std::string g_buf;
int64_t cx_to(ts_Tensor *t, int how) {
    Z(-1, auto a = T(t); g_buf.clear();
      switch (how) {
#define W(i, TY, f) case i: { TY v = tensor::f(a); g_buf.assign((const char *) &v, sizeof(v)); break; } case i + 10: { auto v = tensor::array::f(a); g_buf.assign((const char *) v.data(), v.size() * sizeof(TY)); break; }
      W(0, int, to_int) W(1, unsigned, to_uint) W(2, float, to_float) W(3, double, to_double)
      case 4: g_buf = tensor::to_string(a); break; }
      return int64_t(g_buf.size());)
}
const char *cx_buf() { return g_buf.data(); }
int cx_type_bytes(int d) { return type_bytes(dt(d)); }
const char *cx_type_str(int d) { return type_str(dt(d)); }
int32_t cx_Tensor_save(const char *p, const ts_Tensor *t) { OK(if (coin()) tensor::save(p, t); else tensor::save(p, T(t))) }
ts_Tensor *cx_Tensor_load(const char *p) { Z(nullptr, auto t = tensor::load(p); if (t == nullptr) throw Exception("not loaded"); return tens.keep(t);) }
// ---- modules
ts_Module *cx_Module_Load(const char *p, int f) { Z(nullptr, return mods.keep(Module::Load(p, ts_SerializationFormat(f)));) }
ts_Module *cx_Module_LoadFromStream(void *o, ts_stream_read *f, int fmt) { Z(nullptr, Reader r(o, f); return mods.keep(Module::Load(r, ts_SerializationFormat(fmt)));) }
void cx_free_Module(ts_Module *m) { if (!mods.drop(m)) ts_free_Module(m); }
static Module M(const void *p) { return mods.at(p); }
ts_Module *cx_Module_Fusion(ts_Module *a, int32_t i, ts_Module *b, int32_t j) { Z(nullptr, return mods.keep(Module::Fusion(M(a), i, M(b), j));) }
// ---- workbenches
static Workbench WB(const void *p) { return wbs.at(p); }
ts_Workbench *cx_Workbench_Load(ts_Module *m, const ts_Device *d) {
    Z(nullptr, auto k = M(m); auto e = D(d); bool c = coin();
      return wbs.keep(c ? (coin() ? Workbench::Load(k, e) : Workbench::Load(m, e)) : coin() ? Workbench::Load(k, d) : Workbench::Load(m, d));) }
ts_Workbench *cx_Workbench_Load_v2(ts_Module *m, const ts_Device *d, const char *o) { Z(nullptr, return wbs.keep(Workbench::Load(M(m), D(d), o));) }
void cx_free_Workbench(ts_Workbench *w) { if (!wbs.drop(w)) ts_free_Workbench(w); }
ts_Workbench *cx_Workbench_clone(ts_Workbench *w) { Z(nullptr, return wbs.keep(WB(w).clone());) }
int32_t cx_Workbench_input(ts_Workbench *w, int32_t i, ts_Tensor *t) { OK(auto b = WB(w); if (coin()) b.input(i, t); else b.input(i, T(t))) }
int32_t cx_Workbench_input_by_name(ts_Workbench *w, const char *i, ts_Tensor *t) { OK(auto b = WB(w); std::string s(i); if (coin()) b.input(s, t); else b.input(s, T(t))) }
int32_t cx_Workbench_run(ts_Workbench *w) { OK(WB(w).run()) }
// the caller's handle must receive the output
int32_t cx_Workbench_output(ts_Workbench *w, int32_t i, ts_Tensor *t) { OK(auto b = WB(w); if (coin()) b.output(i, t); else b.output(i, T(t))) }
int32_t cx_Workbench_output_by_name(ts_Workbench *w, const char *i, ts_Tensor *t) { OK(auto b = WB(w); std::string s(i); auto x = T(t); if (coin()) b.output(s, t); else b.output(s, x)) }
ts_Tensor *cx_output(ts_Workbench *w, int32_t i, const char *name) { Z(nullptr, auto b = WB(w); return tens.keep(name ? b.output(std::string(name)) : b.output(i));) }
int32_t cx_Workbench_set_computing_thread_number(ts_Workbench *w, int32_t n) { OK(WB(w).set_computing_thread_number(n)) }
static ImageFilter F(const void *p) { return fils.at(p); }
int32_t cx_Workbench_bind_filter(ts_Workbench *w, int32_t i, ts_ImageFilter *f) { OK(auto b = WB(w); if (coin()) b.bind_filter(i, f); else b.bind_filter(i, F(f))) }
int32_t cx_Workbench_bind_filter_by_name(ts_Workbench *w, const char *i, ts_ImageFilter *f) { OK(auto b = WB(w); std::string s(i); if (coin()) b.bind_filter(s, f); else b.bind_filter(s, F(f))) }
ts_Workbench *cx_new_Workbench(const ts_Device *d) { Z(nullptr, return wbs.keep(coin() ? Workbench(d) : Workbench(D(d)));) }
static Program G(const void *p) { return progs.at(p); }
int32_t cx_Workbench_setup(ts_Workbench *w, ts_Program *p) { OK(auto b = WB(w); if (coin()) b.setup(p); else b.setup(G(p))) }
int32_t cx_Workbench_setup_context(ts_Workbench *w) { OK(WB(w).setup_context()) }
ts_Program *cx_Workbench_compile(ts_Workbench *w, ts_Module *m) { Z(nullptr, return progs.keep(coin() ? WB(w).compile(M(m)) : WB(w).compile(m));) }
ts_Program *cx_Workbench_compile_v2(ts_Workbench *w, ts_Module *m, const char *o) { Z(nullptr, return progs.keep(WB(w).compile(M(m), o));) }
int32_t cx_Workbench_setup_device(ts_Workbench *w) { OK(WB(w).setup_device()) }
int32_t cx_Workbench_setup_runtime(ts_Workbench *w) { OK(WB(w).setup_runtime()) }
int32_t cx_Workbench_input_count(ts_Workbench *w) { Z(0, return WB(w).input_count();) }
int32_t cx_Workbench_output_count(ts_Workbench *w) { Z(0, return WB(w).output_count();) }
int32_t cx_Workbench_run_hook(ts_Workbench *w, const char **n, int32_t k) { OK(std::vector<std::string> v; for (int i = 0; i < k; ++i) v.push_back(n[i]); WB(w).run_hook(v)) }
int32_t cx_Workbench_set_operator_param(ts_Workbench *w, const char *n, const char *p, ts_Tensor *t) { OK(WB(w).set_operator_param(n, p, T(t))) }
static thread_local std::string g_sum;
const char *cx_Workbench_summary(ts_Workbench *w) { Z(nullptr, g_sum = WB(w).summary(); return g_sum.c_str();) }
// ---- programs
ts_Program *cx_Program_Compile(ts_Module *m, const ts_Device *d) {
    Z(nullptr, bool c = coin(); return progs.keep(c ? (coin() ? Program::Compile(M(m), D(d)) : Program::Compile(m, D(d))) : coin() ? Program::Compile(M(m), d) : Program::Compile(m, d));) }
ts_Program *cx_Program_Compile_v2(ts_Module *m, const ts_Device *d, const char *o) { Z(nullptr, return progs.keep(Program::Compile(M(m), D(d), o));) }
void cx_free_Program(ts_Program *p) { if (!progs.drop(p)) ts_free_Program(p); }
ts_Program *cx_Program_clone(ts_Program *p) { Z(nullptr, return progs.keep(G(p).clone());) }
int32_t cx_Program_input_count(ts_Program *p) { Z(0, return G(p).input_count();) }
int32_t cx_Program_output_count(ts_Program *p) { Z(0, return G(p).output_count();) }
int32_t cx_Program_set_operator_param(ts_Program *w, const char *n, const char *p, ts_Tensor *t) { OK(G(w).set_operator_param(n, p, T(t))) }
// ---- filters
ts_ImageFilter *cx_new_ImageFilter(const ts_Device *d) { Z(nullptr, return fils.keep(coin() ? ImageFilter(d) : coin() ? ImageFilter() : ImageFilter(D(d)));) }
void cx_free_ImageFilter(ts_ImageFilter *f) { if (!fils.drop(f)) ts_free_ImageFilter(f); }
int32_t cx_ImageFilter_clear(ts_ImageFilter *f) { OK(F(f).clear()) }
int32_t cx_ImageFilter_compile(ts_ImageFilter *f) { OK(F(f).compile()) }
int32_t cx_ImageFilter_to_float(ts_ImageFilter *f) { OK(F(f).to_float()) }
int32_t cx_ImageFilter_scale(ts_ImageFilter *f, float s) { OK(F(f).scale(s)) }
#define V(TY, x, n) std::vector<TY>(x, x + ((x) && (n) > 0 ? (n) : 0))
int32_t cx_ImageFilter_sub_mean(ts_ImageFilter *f, const float *x, int32_t n) { OK(F(f).sub_mean(V(float, x, n))) }
int32_t cx_ImageFilter_div_std(ts_ImageFilter *f, const float *x, int32_t n) { OK(F(f).div_std(V(float, x, n))) }
int32_t cx_ImageFilter_resize(ts_ImageFilter *f, int32_t w, int32_t h) { OK(F(f).resize(w, h)) }
int32_t cx_ImageFilter_resize_scalar(ts_ImageFilter *f, int32_t w) { OK(F(f).resize(w)) }
int32_t cx_ImageFilter_center_crop(ts_ImageFilter *f, int32_t w, int32_t h) { OK(if (w == h && coin()) F(f).center_crop(w); else F(f).center_crop(w, h)) }
int32_t cx_ImageFilter_channel_swap(ts_ImageFilter *f, const int32_t *x, int32_t n) { OK(F(f).channel_swap(V(int, x, n))) }
int32_t cx_ImageFilter_to_chw(ts_ImageFilter *f) { OK(F(f).to_chw()) }
int32_t cx_ImageFilter_prewhiten(ts_ImageFilter *f) { OK(F(f).prewhiten()) }
int32_t cx_ImageFilter_letterbox(ts_ImageFilter *f, int32_t w, int32_t h, float v) { OK(if (w == h && coin()) F(f).letterbox(w, v); else if (v == 0 && coin()) F(f).letterbox(w, h); else F(f).letterbox(w, h, v)) }
int32_t cx_ImageFilter_divided(ts_ImageFilter *f, int32_t w, int32_t h, float v) { OK(if (v == 0 && coin()) F(f).divide(w, h); else F(f).divide(w, h, v)) }
ts_Tensor *cx_ImageFilter_run(ts_ImageFilter *f, ts_Tensor *t) { Z(nullptr, return tens.keep(coin() ? F(f).run(t) : F(f).run(T(t)));) }
// the two enumerations must name the same methods
static ImageFilter::ResizeMethod R(int m) { return m == TS_RESIZE_BILINEAR ? ImageFilter::ResizeMethod::BILINEAR : m == TS_RESIZE_BICUBIC ? ImageFilter::ResizeMethod::BICUBIC
    : m == TS_RESIZE_NEAREST ? ImageFilter::ResizeMethod::NEAREST : ImageFilter::ResizeMethod(m); }
int32_t cx_ImageFilter_letterbox_v2(ts_ImageFilter *f, int32_t w, int32_t h, float v, int m) {
    OK(auto k = F(f); if (w == h && coin()) { if (coin()) k.letterbox(w, v, R(m)); else k.letterbox(w, v, ts_ResizeMethod(m)); }
       else if (coin()) k.letterbox(w, h, v, R(m)); else k.letterbox(w, h, v, ts_ResizeMethod(m))) }
int32_t cx_ImageFilter_resize_v2(ts_ImageFilter *f, int32_t w, int32_t h, int m) { OK(if (coin()) F(f).resize(w, h, R(m)); else F(f).resize(w, h, ts_ResizeMethod(m))) }
int32_t cx_ImageFilter_resize_scalar_v2(ts_ImageFilter *f, int32_t w, int m) { OK(if (coin()) F(f).resize(w, R(m)); else F(f).resize(w, ts_ResizeMethod(m))) }
int32_t cx_ImageFilter_force_color(ts_ImageFilter *f) { OK(F(f).force_color()) }
int32_t cx_ImageFilter_force_gray(ts_ImageFilter *f) { OK(F(f).force_gray()) }
int32_t cx_ImageFilter_force_gray_v2(ts_ImageFilter *f, const float *x, int32_t n) {
    OK(auto v = V(float, x, n); if (v == std::vector<float>{0.114f, 0.587f, 0.299f} && coin()) F(f).force_bgr2gray();
       else if (v == std::vector<float>{0.299f, 0.587f, 0.114f} && coin()) F(f).force_rgb2gray(); else F(f).force_gray(v)) }
int32_t cx_ImageFilter_norm_image(ts_ImageFilter *f, float e) { OK(F(f).norm_image(e)) }
ts_Module *cx_ImageFilter_module(ts_ImageFilter *f) { Z(nullptr, return mods.keep(F(f).module());) }
// ---- intime
static intime::ResizeMethod Q(int m) { return m == TS_RESIZE_BILINEAR ? intime::ResizeMethod::BILINEAR : m == TS_RESIZE_BICUBIC ? intime::ResizeMethod::BICUBIC
    : m == TS_RESIZE_NEAREST ? intime::ResizeMethod::NEAREST : intime::ResizeMethod(m); }
ts_Tensor *cx_intime_transpose(ts_Tensor *x, const int32_t *p, int32_t n) { Z(nullptr, return tens.keep(intime::transpose(T(x), S(p, n)));) }
ts_Tensor *cx_intime_sigmoid(ts_Tensor *x) { Z(nullptr, return tens.keep(intime::sigmoid(T(x)));) }
ts_Tensor *cx_intime_gather(ts_Tensor *x, ts_Tensor *i, int32_t a) { Z(nullptr, return tens.keep(intime::gather(T(x), T(i), a));) }
ts_Tensor *cx_intime_concat(ts_Tensor **x, int32_t n, int32_t d) { Z(nullptr, std::vector<Tensor> v; for (int i = 0; i < n; ++i) v.push_back(T(x[i])); return tens.keep(intime::concat(v, d));) }
ts_Tensor *cx_intime_softmax(ts_Tensor *x, int32_t d, int32_t s) { Z(nullptr, return tens.keep(s && coin() ? intime::softmax(T(x), d) : intime::softmax(T(x), d, s != 0));) }
ts_Tensor *cx_intime_pad(ts_Tensor *x, ts_Tensor *p, float v) {
    Z(nullptr, auto q = T(p);
      if (coin() && q.dtype() == INT32 && q.dims() == 2 && q.size(0) > 0) { std::vector<intime::DimPadding> w; for (int i = 0; i < q.size(0); ++i) w.emplace_back(q.data<int32_t>(2 * i), q.data<int32_t>(2 * i + 1));
          return tens.keep(v == 0 && coin() ? intime::pad(T(x), w) : intime::pad(T(x), w, v)); }
      return tens.keep(v == 0 && coin() ? intime::pad(T(x), q) : intime::pad(T(x), q, v));) }
ts_Tensor *cx_intime_cast(ts_Tensor *x, int d) { Z(nullptr, return tens.keep(intime::cast(T(x), dt(d)));) }
ts_Tensor *cx_intime_resize2d(ts_Tensor *x, ts_Tensor *s, int m) { Z(nullptr, return tens.keep(m == TS_RESIZE_BILINEAR && coin() ? intime::resize2d(T(x), T(s)) : intime::resize2d(T(x), T(s), Q(m)));) }
static bool arrays(const Tensor &s, const Tensor &a) { return s.dtype() == INT32 && s.sizes() == Shape({2}) && a.dtype() == FLOAT32 && a.sizes() == Shape({3, 3}); }
ts_Tensor *cx_intime_affine_sample2d(ts_Tensor *x, ts_Tensor *s, ts_Tensor *a, int32_t d, float v, int m) {
    Z(nullptr, auto k = T(s); auto w = T(a);
      if (arrays(k, w)) {
          std::array<int32_t, 2> z{{k.data<int32_t>(0), k.data<int32_t>(1)}}; std::array<float, 9> y; for (int i = 0; i < 9; ++i) y[i] = w.data<float>(i);
          bool p = coin(), q = coin();
          if (p && q) return tens.keep(d == -2 && v == 0 && m == TS_RESIZE_BILINEAR ? intime::affine_sample2d(T(x), z, y) : intime::affine_sample2d(T(x), z, y, d, v, Q(m)));
          if (p) return tens.keep(intime::affine_sample2d(T(x), z, w, d, v, Q(m)));
          if (q) return tens.keep(intime::affine_sample2d(T(x), k, y, d, v, Q(m))); }
      return tens.keep(intime::affine_sample2d(T(x), k, w, d, v, Q(m)));) }
ts_Tensor *cx_intime_affine_on_sample2d(ts_Tensor *x, ts_Tensor *s, ts_Tensor *a, int32_t d, int m) {
    Z(nullptr, auto k = T(s); auto w = T(a);
      if (arrays(k, w)) {
          std::array<int32_t, 2> z{{k.data<int32_t>(0), k.data<int32_t>(1)}}; std::array<float, 9> y; for (int i = 0; i < 9; ++i) y[i] = w.data<float>(i);
          bool p = coin(), q = coin();
          if (p && q) return tens.keep(intime::affine_on_sample2d(T(x), z, y, d, 7.f, Q(m)));
          if (p) return tens.keep(intime::affine_on_sample2d(T(x), z, w, d, Q(m)));
          if (q) return tens.keep(intime::affine_on_sample2d(T(x), k, y, d, 7.f, Q(m))); }
      return tens.keep(intime::affine_on_sample2d(T(x), k, w, d, Q(m)));) }
int64_t cx_intime_memcpy(ts_Tensor *d, void *dp, int64_t ds, ts_Tensor *s, void *sp, int64_t ss, int64_t n) {
    Z(0, auto a = T(d); auto b = T(s); return !dp && !sp && coin() ? intime::memcpy(a, ds, b, ss, n) : intime::memcpy(a, dp, ds, b, sp, ss, n);) }
ts_Tensor *cx_intime_matmul(ts_Tensor *a, ts_Tensor *b, int32_t t) { Z(nullptr, return tens.keep(!t && coin() ? intime::matmul(T(a), T(b)) : intime::matmul(T(a), T(b), t != 0));) }
// ---- 2d graphics, double or float
#define MAT(R) { auto q = R; for (int i = 0; i < 9; ++i) o[i] = q[i]; }
#define GFX(NAME, TY) void NAME(int k, const TY *a, const TY *b, TY *o) { using namespace ts; using M3 = Trans2D<TY>; \
    auto L = [](const TY *p) { return M3(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8]); }; \
    switch (k) { \
    case 0: MAT(dot(L(a), L(b))) break; case 1: { M3 A = L(a); stack(A, L(b)); MAT(A) break; } \
    case 2: { auto q = transform(L(a), Vec3D<TY>(b[0], b[1], b[2])); o[0] = q.x(); o[1] = q.y(); o[2] = q.z(); break; } \
    case 3: { auto q = transform(L(a), Vec2D<TY>(b[0], b[1])); o[0] = q.data(0); o[1] = q.data(1); break; } \
    case 4: MAT(affine::inverse(L(a))) break; case 5: MAT(affine::rotate<TY>(b[0])) break; case 6: MAT(affine::translate<TY>(b[0], b[1])) break; \
    case 7: MAT(affine::identity<TY>()) break; case 8: MAT(affine::scale<TY>(b[0], b[1])) break; case 9: MAT(affine::scale<TY>(b[0])) break; \
    case 10: MAT(affine::shear<TY>(b[0], b[1])) break; case 11: MAT(affine::shear_x<TY>(b[0])) break; case 12: MAT(affine::shear_y<TY>(b[0])) break; \
    case 13: MAT(affine::reflect<TY>(b[0] > 0, b[1] > 0)) break; case 14: MAT(affine::reflect_about_origin<TY>()) break; } }
GFX(cx_gfx_d, double)
GFX(cx_gfx_f, float)
}
// ---- an operator written against the C++ class
namespace {
class Mix : public Operator {
    float k = 1; int outs = 1; std::string fail;
public:
    void init(const OperatorParams &p, ts_OperatorContext *) override {
        auto a = p.get("k"); if (a != nullptr) k = tensor::to_float(a);
        auto b = p.get(std::string("outs")); if (b != nullptr) outs = tensor::to_int(b);
        auto c = p.get("fail"); if (c != nullptr) fail = tensor::to_string(c);
        if (fail == "init") Throw("mix init refused");
    }
    std::vector<std::pair<DTYPE, Shape>> infer(const std::vector<Tensor> &a, ts_OperatorContext *) override {
        std::vector<std::pair<DTYPE, Shape>> r;
        for (int i = 0; i < outs; ++i) r.emplace_back(FLOAT32, a.at(0).sizes());
        return r;
    }
    // output i = k * (sum of the arguments) + i
    std::vector<Tensor> run(const std::vector<Tensor> &a, ts_OperatorContext *) override {
        if (fail == "run") TS_THROW("mix run refused");
        if (fail == "none") return {};
        std::vector<Tensor> r;
        for (int i = 0; i < outs; ++i) {
            Tensor y(Tensor::InFlow::HOST, FLOAT32, a.at(0).sizes());
            int n = y.count();
            for (int j = 0; j < n; ++j) { float s = 0; for (auto &x : a) s += x.data<float>(j); y.data<float>(j) = k * s + float(i); }
            r.push_back(y);
        }
        return r;
    }
};
}
extern "C" void cx_register() { RegisterOperator<Mix>("cpu", "tv_mix"); }
