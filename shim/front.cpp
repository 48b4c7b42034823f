// the C++ graph frontend: nodes made in a graph, modules loaded from graphs, operators called in time
#include "api/declare_module.h"
#include "api/declare_tensor.h"
#include "api/declare_workbench.h"
#include "frontend/frontend.h"
#include "frontend/symbol.h"
#include "frontend/intime.h"
#include "module/menu.h"
#include "module/module.h"
#include "core/tensor_builder.h"
#include <string>
#include <vector>
using namespace ts;
static thread_local std::string g_err, g_buf;
#define TRY(...) try { __VA_ARGS__ } catch (const std::exception &e) { g_err = e.what(); }
namespace {
struct FE {
    Graph g;
    std::vector<Node> nodes;
    int keep(const Node &n) { nodes.push_back(n); return int(nodes.size()) - 1; }
};
template <typename A> A arr(const void *p) { A a; for (size_t i = 0; i < a.size(); ++i) a[i] = static_cast<const typename A::value_type *>(p)[i]; return a; }
std::vector<int32_t> ints(const int32_t *p, int n) { return std::vector<int32_t>(p, p + n); }
}
extern "C" {
const char *fe_err() { return g_err.c_str(); }
const char *fe_buf() { return g_buf.c_str(); }
FE *fe_new() { return new FE; }
void fe_free(FE *f) { delete f; }
// nd < 0: without a shape, dtype < 0: without a type
int fe_param(FE *f, const char *name, int dtype, const int32_t *shape, int nd) {
    TRY(ctx::bind<Graph> _(f->g);
        if (nd < 0 && dtype < 0) return f->keep(bubble::param(name));
        if (nd < 0) return f->keep(bubble::param(name, DTYPE(dtype)));
        Shape s(ints(shape, nd));
        if (dtype < 0) return f->keep(bubble::param(name, s));
        return f->keep(bubble::param(name, DTYPE(dtype), s));)
    return -1;
}
int fe_data(FE *f, const char *name, ts_Tensor *x, const char *device) {
    TRY(ctx::bind<Graph> _(f->g);
        return f->keep(device ? bubble::data(name, *x->pointer, DeviceType(device)) : bubble::data(name, *x->pointer));)
    return -1;
}
int fe_op(FE *f, const char *name, const char *op, const int32_t *in, int n, int how) {
    TRY(ctx::bind<Graph> _(f->g);
        std::vector<Node> xs;
        for (int i = 0; i < n; ++i) xs.push_back(f->nodes.at(size_t(in[i])));
        if (how == 0) return f->keep(bubble::op(name, op, xs));
        if (how == 1) return f->keep(bubble::op(name, op, xs, 1));
        if (how == 2) { auto node = bubble::bubble(Bubble(op, name)); Node::Link(node, xs); return f->keep(node); }
        auto node = bubble::bubble(Bubble(op), name);
        Node::Link(node, {});
        Node::Link(node, xs);
        return f->keep(node);)
    return -1;
}
int fe_set(FE *f, int i, const char *param, ts_Tensor *x) {
    TRY(f->nodes.at(size_t(i))->set(param, *x->pointer); return 1;)
    return 0;
}
// layer 0 symbol, 1 frontend, 2 frontend taking plain arrays where it can; node[i] >= 0 is a node, otherwise x[i] is a tensor
int fe_call(FE *f, int layer, const char *fn, const char *name, const int32_t *node, ts_Tensor **x, int n, const int32_t *iv, int ni, const float *fv) {
    TRY(ctx::bind<Graph> _(f->g);
        using frontend::NodeOrTensor;
        std::vector<NodeOrTensor> a;
        for (int i = 0; i < n; ++i) {
            if (node[i] >= 0) a.push_back(f->nodes.at(size_t(node[i])));
            else if (i % 3 == 0) a.push_back(NodeOrTensor(*x[i]->pointer));
            else if (i % 3 == 1) a.push_back(NodeOrTensor(*x[i]->pointer, CPU));
            else a.push_back(NodeOrTensor(*x[i]->pointer, MemoryDevice(CPU, 0)));
        }
        std::string k = fn;
        bool raw = layer == 2;
        auto rt = [&](int i) { return desc::ResizeType(iv[i]); };
        auto tn = [&](int i) -> const Tensor & { return *x[i]->pointer; };
#define BOTH(call_symbol, call_front) return f->keep(layer == 0 ? symbol::call_symbol : frontend::call_front)
        if (k == "add") BOTH(add(name, a[0], a[1]), add(name, a[0], a[1]));
        if (k == "sub") BOTH(sub(name, a[0], a[1]), sub(name, a[0], a[1]));
        if (k == "mul") BOTH(mul(name, a[0], a[1]), mul(name, a[0], a[1]));
        if (k == "div") BOTH(div(name, a[0], a[1]), div(name, a[0], a[1]));
        if (k == "transpose") BOTH(transpose(name, a[0], ints(iv, ni)), transpose(name, a[0], ints(iv, ni)));
        if (k == "sigmoid") BOTH(sigmoid(name, a[0]), sigmoid(name, a[0]));
        if (k == "gather") BOTH(gather(name, a[0], a[1], iv[0]), gather(name, a[0], a[1], iv[0]));
        if (k == "concat") {
            if (layer) return f->keep(frontend::concat(name, a, iv[0]));
            return f->keep(symbol::concat(name, std::vector<Node>(a.begin(), a.end()), iv[0]));
        }
        if (k == "softmax") BOTH(softmax(name, a[0], iv[0], iv[1] != 0), softmax(name, a[0], iv[0], iv[1] != 0));
        if (k == "cast") BOTH(cast(name, a[0], DTYPE(iv[0])), cast(name, a[0], DTYPE(iv[0])));
        if (k == "matmul") BOTH(matmul(name, a[0], a[1], iv[0] != 0), matmul(name, a[0], a[1], iv[0] != 0));
        if (k == "broadcast") {
            if (raw && node[1] < 0) return f->keep(frontend::broadcast(name, a[0], tensor::array::to_int(tn(1))));
            BOTH(broadcast(name, a[0], a[1]), broadcast(name, a[0], a[1]));
        }
        if (k == "pad") {
            if (raw && node[1] < 0) {
                auto p = tensor::array::to_int(tn(1));
                std::vector<frontend::DimPadding> v;
                for (size_t i = 0; i + 1 < p.size(); i += 2) v.emplace_back(p[i], p[i + 1]);
                return f->keep(frontend::pad(name, a[0], v, fv[0]));
            }
            BOTH(pad(name, a[0], a[1], fv[0]), pad(name, a[0], a[1], fv[0]));
        }
        if (k == "resize2d") {
            if (raw && node[1] < 0) return f->keep(frontend::resize2d(name, a[0], tensor::array::to_int(tn(1)), rt(0)));
            BOTH(resize2d(name, a[0], a[1], rt(0)), resize2d(name, a[0], a[1], rt(0)));
        }
        if (k == "affine_sample2d") {
            bool s = raw && node[1] < 0;
            bool m = raw && node[2] < 0;
            using S = std::array<int32_t, 2>;
            using M = std::array<float, 9>;
            if (s && m) return f->keep(frontend::affine_sample2d(name, a[0], arr<S>(tn(1).data()), arr<M>(tn(2).data()), iv[0], fv[0], rt(1)));
            if (s) return f->keep(frontend::affine_sample2d(name, a[0], arr<S>(tn(1).data()), a[2], iv[0], fv[0], rt(1)));
            if (m) return f->keep(frontend::affine_sample2d(name, a[0], a[1], arr<M>(tn(2).data()), iv[0], fv[0], rt(1)));
            BOTH(affine_sample2d(name, a[0], a[1], a[2], iv[0], fv[0], rt(1)), affine_sample2d(name, a[0], a[1], a[2], iv[0], fv[0], rt(1)));
        }
        if (k == "affine_on_sample2d") {
            bool s = raw && node[1] < 0;
            bool m = raw && node[2] < 0;
            using S = std::array<int32_t, 2>;
            using M = std::array<float, 9>;
            if (s && m) return f->keep(frontend::affine_on_sample2d(name, a[0], arr<S>(tn(1).data()), arr<M>(tn(2).data()), iv[0], rt(1)));
            if (s) return f->keep(frontend::affine_on_sample2d(name, a[0], arr<S>(tn(1).data()), a[2], iv[0], rt(1)));
            if (m) return f->keep(frontend::affine_on_sample2d(name, a[0], a[1], arr<M>(tn(2).data()), iv[0], rt(1)));
            BOTH(affine_on_sample2d(name, a[0], a[1], a[2], iv[0], rt(1)), affine_on_sample2d(name, a[0], a[1], a[2], iv[0], rt(1)));
        }
        g_err = "no such function";)
    return -1;
}
// how 0: every sink, 1: nodes, 2: names
int fe_load(ts_Module *m, FE *f, int how, const int32_t *out, const char **names, int n) {
    TRY(if (how == 0) m->pointer->load(f->g);
        else if (how == 1) {
            std::vector<Node> v;
            for (int i = 0; i < n; ++i) v.push_back(f->nodes.at(size_t(out[i])));
            m->pointer->load(f->g, v);
        } else m->pointer->load(f->g, std::vector<std::string>(names, names + n));
        return 1;)
    return 0;
}
ts_Module *fe_module(FE *f, int how, const int32_t *out, const char **names, int n) {
    TRY(if (!f) return new ts_Module(std::make_shared<Module>());
        if (how == 0) return new ts_Module(Module::Load(f->g));
        if (how == 1) {
            std::vector<Node> v;
            for (int i = 0; i < n; ++i) v.push_back(f->nodes.at(size_t(out[i])));
            return new ts_Module(Module::Load(f->g, v));
        }
        return new ts_Module(Module::Load(f->g, std::vector<std::string>(names, names + n)));)
    return nullptr;
}
// an output of one graph loaded from another
int fe_foreign(FE *f, FE *of, int i) {
    TRY(Module m; m.load(f->g, std::vector<Node>{of->nodes.at(size_t(i))}); return 1;)
    return 0;
}
int fe_sort(ts_Module *m, FE *f, int how, const int32_t *in, const char **names, int n) {
    TRY(if (how == 0) m->pointer->sort_inputs(std::vector<std::string>(names, names + n));
        else {
            std::vector<Node> v;
            for (int i = 0; i < n; ++i) v.push_back(f->nodes.at(size_t(in[i])));
            m->pointer->sort_inputs(v);
        }
        return 1;)
    return 0;
}
// names of the inputs or outputs, one a line
int fe_names(ts_Module *m, int which) {
    TRY(g_buf.clear();
        for (auto &n : which ? m->pointer->outputs() : m->pointer->inputs()) { g_buf += n->name(); g_buf += "\n"; }
        return 1;)
    return 0;
}
int fe_set_param(ts_Module *m, const char *node, const char *param, ts_Tensor *x) {
    TRY(m->pointer->set_param(node, param, *x->pointer); return 1;)
    return 0;
}
int fe_clear(ts_Module *m) { TRY(m->pointer->clear(); return 1;) return 0; }
// ts::intime in the workbench w, or in the one of the context; raw: the forms taking plain arrays
ts_Tensor *fe_intime(ts_Workbench *w, int raw, const char *fn, ts_Tensor **x, int n, const int32_t *iv, int ni, const float *fv) {
    TRY(std::vector<Tensor> a;
        for (int i = 0; i < n; ++i) a.push_back(*x[i]->pointer);
        std::string k = fn;
        auto rt = [&](int i) { return desc::ResizeType(iv[i]); };
        auto give = [&](const Tensor &t) { return new ts_Tensor(t); };
        auto on = [&](const Bubble &b) { return give(intime::run(*w->pointer, b, a)); };
        using S = std::array<int32_t, 2>;
        using M = std::array<float, 9>;
#define DO(plain, desc_) return w ? on(desc::desc_) : give(intime::plain)
        if (k == "add") DO(add(a[0], a[1]), add());
        if (k == "sub") DO(sub(a[0], a[1]), sub());
        if (k == "mul") DO(mul(a[0], a[1]), mul());
        if (k == "div") DO(div(a[0], a[1]), div());
        if (k == "transpose") DO(transpose(a[0], ints(iv, ni)), transpose(ints(iv, ni)));
        if (k == "sigmoid") DO(sigmoid(a[0]), sigmoid());
        if (k == "gather") {
            if (raw && !w && a[1].dims() == 1) return give(intime::gather(a[0], tensor::array::to_int(a[1]), iv[0]));
            DO(gather(a[0], a[1], iv[0]), gather(iv[0]));
        }
        if (k == "concat") { if (w && n == 1) return give(a[0]); DO(concat(a, iv[0]), concat(iv[0])); }
        if (k == "softmax") DO(softmax(a[0], iv[0], iv[1] != 0), softmax(iv[0], iv[1] != 0));
        if (k == "cast") DO(cast(a[0], DTYPE(iv[0])), cast(DTYPE(iv[0])));
        if (k == "matmul") DO(matmul(a[0], a[1], iv[0] != 0), matmul(iv[0] != 0));
        if (k == "broadcast") {
            if (raw && !w) return give(intime::broadcast(a[0], tensor::array::to_int(a[1])));
            DO(broadcast(a[0], a[1]), broadcast());
        }
        if (k == "pad") DO(pad(a[0], a[1], fv[0]), pad(fv[0]));
        if (k == "resize2d") {
            if (raw && !w) return give(intime::resize2d(a[0], tensor::array::to_int(a[1]), rt(0)));
            DO(resize2d(a[0], a[1], rt(0)), resize2d(rt(0)));
        }
        if (k == "affine_sample2d") {
            if (raw == 1 && !w) return give(intime::affine_sample2d("n", a[0], arr<S>(a[1].data()), arr<M>(a[2].data()), iv[0], fv[0], rt(1)));
            if (raw == 2 && !w) return give(intime::affine_sample2d("n", a[0], arr<S>(a[1].data()), a[2], iv[0], fv[0], rt(1)));
            if (raw == 3 && !w) return give(intime::affine_sample2d("n", a[0], a[1], arr<M>(a[2].data()), iv[0], fv[0], rt(1)));
            DO(affine_sample2d(a[0], a[1], a[2], iv[0], fv[0], rt(1)), affine_sample2d(iv[0], fv[0], rt(1)));
        }
        if (k == "affine_on_sample2d") {
            if (raw == 1 && !w) return give(intime::affine_on_sample2d("n", a[0], arr<S>(a[1].data()), arr<M>(a[2].data()), iv[0], rt(1)));
            if (raw == 2 && !w) return give(intime::affine_on_sample2d("n", a[0], arr<S>(a[1].data()), a[2], iv[0], rt(1)));
            if (raw == 3 && !w) return give(intime::affine_on_sample2d("n", a[0], a[1], arr<M>(a[2].data()), iv[0], rt(1)));
            DO(affine_on_sample2d(a[0], a[1], a[2], iv[0], rt(1)), affine_on_sample2d(iv[0], rt(1)));
        }
        g_err = "no such function";)
    return nullptr;
}
}
