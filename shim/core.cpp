// the C++ building blocks (tensors, stacks, bubbles, prototypes, small helpers) behind C functions
#include <cstdint>
#include <cstring>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include "core/tensor.h"
#include "core/tensor_builder.h"
#include "core/memory.h"
#include "core/controller.h"
#include "memory/flow.h"
#include "core/sync/sync_controller.h"
#include "module/bubble.h"
#include "module/io/sstream.h"
#include "runtime/stack.h"
#include "utils/box.h"
using namespace ts;
static thread_local std::string g_err, g_buf;
#define TRY(bad, ...) g_err.clear(); try { __VA_ARGS__ } catch (const std::exception &e) { g_err = e.what(); if (g_err.empty()) g_err = "?"; return bad; }
static Shape S(const int32_t *s, int n) { return Shape(std::vector<int32_t>(s, s + n)); }
static MemoryDevice cpu() { return MemoryDevice(CPU); }
using DynSync = DynamicSyncMemoryController;
using FlowSync = HypeSyncMemoryController<FlowMemoryController>;
static FlowSync::shared &flow() { static FlowSync::shared f = FlowSync::Make(cpu()); return f; }
static std::shared_ptr<FlowMemoryController> &hflow() { static auto f = std::make_shared<FlowMemoryController>(cpu()); return f; }
static SyncMemoryController::shared sync_of(int how) { if (how & 1) return flow(); return DynSync::Make(cpu(), (how & 2) != 0); }
static MemoryController::shared hard_of(int how) { if (how & 1) return hflow(); return std::make_shared<DynamicMemoryController>(cpu()); }
template<typename V> static int put(const V &v, double *o) { int n = 0; for (size_t i = 0; i < v.size(); ++i) { o[n++] = double(v[i]); } return n; }
extern "C" {
const char *k_err() { return g_err.c_str(); }
Tensor *k_new(int how, int dt, const int32_t *s, int n, const void *data) {
    TRY(nullptr,
        DTYPE d = DTYPE(dt); Shape sh = S(s, n); Tensor::Prototype p(d, sh); Tensor *t;
        size_t bytes = size_t(p.count()) * p.type_bytes();
        switch (how / 4) {
            case 0: t = new Tensor(d, sh); break;
            case 1: t = new Tensor(cpu(), d, sh); break;
            case 2: t = new Tensor(hard_of(how), d, sh); break;
            case 3: t = new Tensor(sync_of(how), d, sh); break;
            case 4: t = new Tensor(p); break;
            case 5: t = new Tensor(sync_of(how), p, cpu()); break;
            case 6: t = new Tensor(Memory(cpu(), bytes), p); break;
            case 7: t = new Tensor(SyncMemory(bytes, (how & 1) != 0), p); break;
            case 8: t = new Tensor(hard_of(how), p); break;
            case 9: t = new Tensor(sync_of(how), p); break;
            default: t = new Tensor(sync_of(how), d, sh, cpu()); break;
        }
        if (bytes) std::memcpy(t->data(), data, bytes);
        return t;)
}
Tensor *k_void(int how) { TRY(nullptr, if (how == 1) return new Tensor(VOID, Shape()); if (how == 2) return new Tensor(cpu(), VOID, Shape()); return new Tensor();) }
void k_free(Tensor *t) { delete t; }
int k_desc(const Tensor *t, int32_t *o) {
    TRY(-1,
        int32_t *b = o;
        *o++ = int32_t(t->fields_count()); *o++ = t->packed(); *o++ = t->empty(); *o++ = t->has_empty_shape(); *o++ = int32_t(t->dims()); *o++ = t->count(); *o++ = t->dtype();
        *o++ = t->proto().dtype() == t->dtype() && t->proto().sizes() == t->sizes();
        for (size_t i = 0; i < t->fields_count(); ++i) {
            Tensor f = t->field(i);
            *o++ = f.dtype(); *o++ = int32_t(f.dims());
            for (size_t k = 0; k < f.dims(); ++k) { *o++ = f.size(k); if (f.size(k) != f.sizes()[k]) return -2; }
            if (f.packed()) return -3;
        }
        return int(o - b);)
}
int k_read(const Tensor *t, int i, void *out, int n) {
    TRY(-1, Tensor f = t->field(i); const Tensor &c = f; int b = f.count() * f.proto().type_bytes();
        if (b != n) return -2;
        if (c.data() != f.data() || f.data<char>() != f.data()) return -3;
        if (b) std::memcpy(out, c.data(), b);
        return b;)
}
int k_write(Tensor *t, int i, int off, const void *x, int n) { TRY(0, Tensor f = t->field(i); std::memcpy(f.data<char>() + off, x, n); return 1;) }
Tensor *k_clone(const Tensor *t, int how) {
    TRY(nullptr,
        switch (how / 4) {
            case 0: return new Tensor(t->clone());
            case 1: return new Tensor(t->clone(hard_of(how)));
            case 2: return new Tensor(t->clone(sync_of(how)));
            case 3: return new Tensor(t->clone(sync_of(how), cpu()));
            case 4: return new Tensor(*t->clone_shared());
            case 5: return new Tensor(*t->clone_shared(hard_of(how)));
            case 6: return new Tensor(*t->clone_shared(sync_of(how)));
            default: return new Tensor(*t->clone_shared(sync_of(how), cpu()));
        })
}
Tensor *k_copy(const Tensor *t) { TRY(nullptr, return new Tensor(*t);) }
int k_assign(Tensor *a, const Tensor *b) { TRY(0, *a = *b; return 1;) }
Tensor *k_move(Tensor *t) { TRY(nullptr, auto r = new Tensor(std::move(*t)); delete t; return r;) }
int k_move_assign(Tensor *a, Tensor *b) { TRY(0, *a = std::move(*b); delete b; return 1;) }
int k_swap(Tensor *a, Tensor *b) { TRY(0, std::swap(*a, *b); return 1;) }
Tensor *k_reshape(const Tensor *t, const int32_t *s, int n) { TRY(nullptr, return new Tensor(t->reshape(S(s, n)));) }
Tensor *k_flatten(const Tensor *t, int d, int dflt) { TRY(nullptr, return new Tensor(dflt ? t->flatten() : t->flatten(d));) }
Tensor *k_slice1(Tensor *t, int i) { TRY(nullptr, return new Tensor(t->slice(i));) }
Tensor *k_slice2(Tensor *t, int b, int e) { TRY(nullptr, return new Tensor(t->slice(b, e));) }
Tensor *k_weak(const Tensor *t) { TRY(nullptr, return new Tensor(t->weak());) }
Tensor *k_strong(const Tensor *t) { TRY(nullptr, return new Tensor(t->strong());) }
Tensor *k_view(const Tensor *t, int how) { TRY(nullptr, return new Tensor(how ? t->view(Tensor::InFlow::HOST) : t->view(cpu()));) }
int k_broadcast(Tensor *t) { TRY(0, t->broadcast(); return 1;) }
Tensor *k_field(const Tensor *t, int i, int how) { TRY(nullptr, return new Tensor(how ? t->field(size_t(i)) : t->field(i));) }
int k_set_field(Tensor *t, int i, int how, const Tensor *v) { TRY(0, if (how) t->field(size_t(i), *v); else t->field(i, *v); return 1;) }
int k_pack(Tensor *t, Tensor **xs, int n) { TRY(0, std::vector<Tensor> v; for (int i = 0; i < n; ++i) v.push_back(*xs[i]); t->pack(v); return 1;) }
Tensor *k_Pack(Tensor **xs, int n) { TRY(nullptr, std::vector<Tensor> v; for (int i = 0; i < n; ++i) v.push_back(*xs[i]); return new Tensor(Tensor::Pack(v));) }
int k_unpack(const Tensor *t, Tensor **out) { TRY(-1, auto v = t->unpack(); int i = 0; for (auto &x : v) out[i++] = new Tensor(x); return i;) }
int k_refield(Tensor *t, int n) { TRY(0, t->refield(n); return 1;) }
int k_has_shape(const Tensor *t, const int32_t *s, int n, int how) {
    TRY(-1,
        if (how == 0) return t->has_shape(S(s, n));
        switch (n) {
            case 1: if (how == 2) return t->has_shape({s[0]}); return t->has_shape(s[0]);
            case 2: if (how == 2) return t->has_shape({s[0], s[1]}); return t->has_shape(s[0], s[1]);
            case 3: if (how == 2) return t->has_shape({s[0], s[1], s[2]}); return t->has_shape(s[0], s[1], s[2]);
            case 4: return t->has_shape(s[0], s[1], s[2], s[3]);
            case 5: return t->has_shape(s[0], s[1], s[2], s[3], s[4]);
            case 6: return t->has_shape(s[0], s[1], s[2], s[3], s[4], s[5]);
            case 7: return t->has_shape(s[0], s[1], s[2], s[3], s[4], s[5], s[6]);
            case 8: return t->has_shape(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7]);
            case 9: return t->has_shape(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8]);
            case 10: return t->has_shape(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9]);
            default: return t->has_shape(S(s, n));
        })
}
Tensor *k_cast(const Tensor *t, int d) { TRY(nullptr, return new Tensor(tensor::cast(DTYPE(d), *t));) }
Tensor *k_tclone(const Tensor *t, int d) { TRY(nullptr, return new Tensor(tensor::clone(DTYPE(d), *t));) }
int k_to(const Tensor *t, int what, double *o) {
    TRY(-1,
        switch (what) {
            case 0: *o = tensor::to_int(*t); break;
            case 1: *o = tensor::to_uint(*t); break;
            case 2: *o = tensor::to_float(*t); break;
            case 3: *o = tensor::to_double(*t); break;
            default: *o = tensor::to_bool(*t); break;
        }
        return 1;)
}
int k_array(const Tensor *t, int what, double *o) {
    TRY(-1,
        switch (what) {
            case 0: return put(tensor::array::to_int(*t), o);
            case 1: return put(tensor::array::to_uint(*t), o);
            case 2: return put(tensor::array::to_float(*t), o);
            case 3: return put(tensor::array::to_double(*t), o);
            case 4: return put(tensor::array::to_bool(*t), o);
            default: return put(tensor::array::to_long(*t), o);
        })
}
int k_ser(const Tensor *t, void *out, int cap, int how) {
    TRY(-1, StringStreamWriter w; size_t n; if (how) { tensor::save(w, *t); n = w.str().size(); } else n = t->serialize(w);
        std::string s = w.str(); if (s.size() != n || int(n) > cap) return -2; std::memcpy(out, s.data(), n); return int(n);)
}
int k_ext(Tensor *t, const void *x, int n, int how) {
    TRY(-1, StringStreamReader r(std::string((const char *) x, n)); if (how) { *t = tensor::load(r); return n; } return int(t->externalize(r));)
}
const char *k_proto_str(const Tensor *t) { TRY(nullptr, std::ostringstream o; o << TensorPrototype(*t); g_buf = o.str(); return g_buf.c_str();) }
const char *k_proto0_str(const Tensor *t) { TRY(nullptr, std::ostringstream o; o << t->proto(); g_buf = o.str(); return g_buf.c_str();) }
int k_proto_eq(const Tensor *a, const Tensor *b) {
    TRY(-1, TensorPrototype x(*a); TensorPrototype y(*b);
        int m = (x == y) | (x != y) << 1 | (a->proto() == y) << 2 | (a->proto() != y) << 3 | (x == b->proto()) << 4 | (x != b->proto()) << 5 | (a->proto() == b->proto()) << 6 | (a->proto() != b->proto()) << 7;
        return m;)
}
// fields as dtype, rank, sizes...; then steps: 0 n = refield, 1 i dtype rank sizes.. = set field (int), 2 .. (size_t), 3 = copy, 4 = move, 5 = unpack and pack reversed
const char *k_proto_prog(const int32_t *p, int nf, int steps) {
    TRY(nullptr,
        auto rd = [&]() { DTYPE d = DTYPE(*p++); int n = *p++; Shape s = S(p, n); p += n; return Tensor::Prototype(d, s); };
        std::vector<Tensor::Prototype> fs; for (int i = 0; i < nf; ++i) fs.push_back(rd());
        TensorPrototype x(fs);
        for (int i = 0; i < steps; ++i) {
            int k = *p++;
            if (k == 0) x.refield(*p++);
            else if (k == 1) { int f = *p++; x.field(f, rd()); }
            else if (k == 2) { int f = *p++; x.field(size_t(f), rd()); }
            else if (k == 3) { TensorPrototype y(x); TensorPrototype z; z = y; x = z; }
            else if (k == 4) { TensorPrototype y(std::move(x)); TensorPrototype z; z = std::move(y); x = std::move(z); }
            else if (k == 5) { auto v = x.unpack(); std::vector<Tensor::Prototype> r(v.rbegin(), v.rend()); x.pack(r); }
        }
        std::ostringstream o; o << x << " " << x.fields_count() << " " << x.packed();
        for (int i = -int(x.fields_count()); i < int(x.fields_count()); ++i) o << " " << x.field(i) << " " << x.field(size_t(i < 0 ? i + int(x.fields_count()) : i)).count();
        g_buf = o.str(); return g_buf.c_str();)
}
// ---- stacks
Stack *s_new(int how) { TRY(nullptr, if (how == 0) return new Stack(cpu()); if (how == 1) return new Stack(cpu(), true); if (how == 2) return new Stack(cpu(), flow()); return new Stack(cpu(), DynSync::Make(cpu()));) }
void s_free(Stack *s) { delete s; }
static void fill(Tensor *t, const char *data) {
    for (size_t i = 0; i < t->fields_count(); ++i) { Tensor f = t->field(i); size_t n = size_t(f.count()) * f.proto().type_bytes(); if (n) std::memcpy(f.data(), data, n); data += n; }
}
// fields as in k_proto_prog
int s_make(Stack *s, const int32_t *p, int nf, int how, const char *data) {
    TRY(0,
        auto rd = [&]() { DTYPE d = DTYPE(*p++); int n = *p++; Shape h = S(p, n); p += n; return Tensor::Prototype(d, h); };
        std::vector<Tensor::Prototype> fs; for (int i = 0; i < nf; ++i) fs.push_back(rd());
        Tensor *t;
        if (nf == 1) {
            auto &f = fs[0];
            switch (how % 6) {
                case 0: t = s->push(f.dtype(), f.sizes()); break;
                case 1: t = s->push(f.dtype(), f.sizes(), cpu()); break;
                case 2: t = s->push(f); break;
                case 3: t = s->push(f, cpu()); break;
                case 4: t = s->push(s->make(f)); break;
                default: t = s->push(s->make(Tensor::InFlow::HOST, f)); break;
            }
        } else {
            TensorPrototype f(fs);
            switch (how % 4) {
                case 0: t = s->push(f); break;
                case 1: t = s->push(f, cpu()); break;
                case 2: t = s->push(s->make(f)); break;
                default: t = s->push(s->make(Tensor::InFlow::HOST, f)); break;
            }
        }
        if (t != s->top()) return -1;
        fill(t, data); return 1;)
}
int s_push(Stack *s, const Tensor *t) { TRY(0, return s->push(*t) == s->top() ? 1 : -1;) }
int s_push_i(Stack *s, int i) { TRY(0, return s->push(i) == s->top() ? 1 : -1;) }
int s_clone_push(Stack *s, const Tensor *t, int how) { TRY(0, return (how ? s->clone_push(*t, cpu()) : s->clone_push(*t)) == s->top() ? 1 : -1;) }
int s_clone_i(Stack *s, int i, int how) { TRY(0, return (how ? s->clone(i, cpu()) : s->clone(i)) == s->top() ? 1 : -1;) }
Tensor *s_index(Stack *s, int i, int how) {
    TRY(nullptr, const Stack &c = *s;
        switch (how) {
            case 0: return new Tensor(*s->index(i));
            case 1: return new Tensor(*c.index(i));
            case 2: return new Tensor((*s)[i]);
            case 3: return new Tensor(c[i]);
            default: return i >= 0 ? new Tensor((*s)[size_t(i)]) : new Tensor(c[i]);
        })
}
Tensor *s_top(Stack *s, int how) { TRY(nullptr, const Stack &c = *s; return new Tensor(how ? *s->top() : *c.top());) }
int s_set(Stack *s, int i, const Tensor *t) { TRY(0, *s->index(i) = *t; return 1;) }
int s_pop(Stack *s, int n) { TRY(0, if (n < 0) s->pop(); else s->pop(size_t(n)); return 1;) }
int s_size(Stack *s) { return int(s->size()); }
int s_base(Stack *s) { return int(s->base()); }
int s_erase(Stack *s, int i) { TRY(0, s->erase(i); return 1;) }
int s_erase2(Stack *s, int b, int e) { TRY(0, s->erase(b, e); return 1;) }
int s_clear(Stack *s) { TRY(0, s->clear(); return 1;) }
int s_push_base(Stack *s, int i) { TRY(0, s->push_base(i); return 1;) }
int s_pop_base(Stack *s) { TRY(0, s->pop_base(); return 1;) }
int s_rebase(Stack *s, int i) { TRY(-1, return int(s->rebase(size_t(i)));) }
int s_all(Stack *s, Tensor **out, int how) {
    TRY(-1, int n = 0; const Stack &c = *s;
        if (how) for (auto &t : c) out[n++] = new Tensor(t); else for (auto &t : *s) out[n++] = new Tensor(t);
        return n;)
}
// ---- bubbles
Bubble *b_new(int how, const char *op, const char *name, const int32_t *s, int n, int count) {
    TRY(nullptr,
        switch (how) {
            case 0: return new Bubble(op);
            case 1: return new Bubble(std::string(op), std::string(name));
            case 2: return new Bubble(op, S(s, n));
            case 3: return new Bubble(op, name, S(s, n));
            case 4: return new Bubble(op, count);
            case 5: return new Bubble(op, name, count);
            case 6: return new Bubble(op, count, S(s, n));
            case 7: return new Bubble(op, name, count, S(s, n));
            default: return new Bubble();
        })
}
void b_free(Bubble *b) { delete b; }
Bubble *b_copy(const Bubble *b) { TRY(nullptr, return new Bubble(*b);) }
int b_assign(Bubble *a, const Bubble *b) { TRY(0, *a = *b; return 1;) }
Bubble *b_move(Bubble *b, int how) { TRY(nullptr, Bubble *r; if (how) { r = new Bubble("left", "over", Shape({1, 2})); *r = std::move(*b); } else r = new Bubble(std::move(*b)); delete b; return r;) }
int b_set(Bubble *b, const char *k, const Tensor *t) { TRY(0, b->set(k, *t); return 1;) }
Tensor *b_get(Bubble *b, const char *k, int how) { TRY(nullptr, const Bubble &c = *b; return new Tensor(how ? c.get(k) : b->get(k));) }
int b_has(const Bubble *b, const char *k) { return b->has(k); }
int b_clear(Bubble *b, const char *k) { TRY(0, b->clear(k); return 1;) }
int b_clear_params(Bubble *b) { TRY(0, b->clear_params(); return 1;) }
int b_op(Bubble *b, const char *v) { TRY(0, b->op(v); return 1;) }
int b_name(Bubble *b, const char *v) { TRY(0, b->name(v); return 1;) }
int b_shape(Bubble *b, const int32_t *s, int n) { TRY(0, b->shape(S(s, n)); return 1;) }
int b_dtype(Bubble *b, int d) { TRY(0, b->dtype(DTYPE(d)); return 1;) }
const char *b_info(const Bubble *b) {
    TRY(nullptr, std::ostringstream o; o << b->op() << "|" << b->name() << "|" << to_string(b->shape()) << "|" << int(b->dtype()) << "|" << b->output_count() << "|" << b->params().size() << "|" << *b;
        g_buf = o.str(); return g_buf.c_str();)
}
const char *b_keys(const Bubble *b) { TRY(nullptr, g_buf.clear(); for (auto &p : b->params()) { g_buf += p.first; g_buf += '\n'; } return g_buf.c_str();) }
int b_num(const Bubble *b, const char *k, int what, double *o) {
    TRY(-1,
        switch (what) {
            case 0: *o = b->get_int(k); return 1;
            case 1: *o = b->get_uint(k); return 1;
            case 2: *o = b->get_float(k); return 1;
            case 3: *o = b->get_double(k); return 1;
            case 4: *o = b->get_bool(k); return 1;
            case 5: return put(b->get_int_list(k), o);
            case 6: return put(b->get_uint_list(k), o);
            case 7: return put(b->get_float_list(k), o);
            case 8: return put(b->get_double_list(k), o);
            default: return put(b->get_bool_list(k), o);
        })
}
int b_string(const Bubble *b, const char *k, char *o) { TRY(-1, std::string s = b->get_string(k); std::memcpy(o, s.data(), s.size()); return int(s.size());) }
int b_ser(const Bubble *b, void *out, int cap) { TRY(-1, StringStreamWriter w; size_t n = b->serialize(w); std::string s = w.str(); if (s.size() != n || int(n) > cap) return -2; std::memcpy(out, s.data(), n); return int(n);) }
int b_ext(Bubble *b, const void *x, int n) { TRY(-1, StringStreamReader r(std::string((const char *) x, n)); return int(b->externalize(r));) }
int b_end(const char *op) { return Bubble::IsEndPoint(op); }
// ---- helpers
int h_edit(const char *a, int na, const char *b, int nb) { TRY(-1, return edit_distance(std::string(a, na), std::string(b, nb));) }
int h_split(const char *a, int na, const char *b, int nb, char *out) {
    TRY(-1, auto v = Split(std::string(a, na), std::string(b, nb)); int n = 0; std::string j; for (auto &s : v) { if (n++) j += '\x01'; j += s; } std::memcpy(out, j.data(), j.size()); out[j.size()] = 0; return n;)
}
int h_join(const char **xs, int n, const char *sep, char *out) { TRY(-1, std::vector<std::string> v(xs, xs + n); auto s = Join(v, sep); std::memcpy(out, s.data(), s.size()); out[s.size()] = 0; return int(s.size());) }
const char *h_mem(uint64_t n) { TRY(nullptr, g_buf = memory_size_string(n); return g_buf.c_str();) }
}
