// static shape inference over graphs, and operators created, asked and run outside of a program
#include "api/declare_module.h"
#include "api/declare_tensor.h"
#include "api/declare_workbench.h"
#include "module/module.h"
#include "module/bubble.h"
#include "runtime/inferer.h"
#include "runtime/workbench.h"
#include "core/tensor_builder.h"
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
using namespace ts;
static thread_local std::string g_buf, g_err;
extern "C" {
const char *inf_err() { return g_err.c_str(); }
const char *inf_buf() { return g_buf.c_str(); }
// mark an input of the module
int inf_param(ts_Module *m, int i, const int32_t *shape, int nd, int dtype) {
    try {
        auto node = m->pointer->inputs().at(size_t(i));
        node->set("#shape", tensor::build(INT32, std::vector<int32_t>(shape, shape + nd)));
        node->set("#dtype", tensor::build(INT32, int32_t(dtype)));
        return 1;
    } catch (const std::exception &e) { g_err = e.what(); return 0; }
}
static std::string hex(const std::string &s) { static const char *d = "0123456789abcdef"; std::string h; for (unsigned char c : s) { h += d[c >> 4]; h += d[c & 15]; } return h; }
static void proto(std::ostringstream &o, const TensorPrototype &p) {
    o << "[";
    for (size_t i = 0; i < p.fields_count(); ++i) {
        auto f = p.field(i);
        o << (i ? "," : "") << "[" << int(f.dtype()) << ",[";
        for (size_t k = 0; k < f.sizes().size(); ++k) o << (k ? "," : "") << f.sizes()[k];
        o << "]]";
    }
    o << "]";
}
static void walk(const Node &n, std::unordered_set<Node> &seen, std::vector<Node> &all) {
    if (!seen.insert(n).second) return;
    for (auto &i : n.inputs()) walk(i, seen, all);
    all.push_back(n);
}
// infer every output (way 0 one by one, 1 with one cache, 2 all at once); the nodes' prototypes as JSON {name: fields}
int inf_run(ts_Module *m, int way) {
    try {
        std::unordered_map<Node, TensorPrototype> cache;
        auto outs = m->pointer->outputs();
        std::vector<TensorPrototype> got;
        if (way == 0) for (auto &n : outs) got.push_back(infer(n));
        else if (way == 1) for (auto &n : outs) got.push_back(infer(n, cache));
        else if (way == 2) got = infer(outs);
        else got = infer(outs, cache);
        std::ostringstream o;
        o << "{\"outputs\": [";
        for (size_t i = 0; i < got.size(); ++i) { if (i) o << ","; proto(o, got[i]); }
        o << "], \"nodes\": {";
        bool comma = false;
        for (auto &p : cache) { o << (comma ? "," : "") << "\"" << hex(p.first->name()) << "\": "; comma = true; proto(o, p.second); }
        o << "}, \"values\": [";
        std::unordered_set<Node> seen;
        std::vector<Node> all;
        for (auto &n : outs) walk(n, seen, all);
        comma = false;
        for (auto &n : all) if (n->has("#value")) { o << (comma ? "," : "") << "\"" << hex(n->name()) << "\""; comma = true; }
        o << "], \"marks\": {";
        comma = false;
        for (auto &n : all) if (n->has("#dtype") && n->has("#shape")) {
            o << (comma ? "," : "") << "\"" << hex(n->name()) << "\": [" << tensor::to_int(n->get("#dtype")) << ",[";
            comma = true;
            auto s = tensor::array::to_int(n->get("#shape"));
            for (size_t k = 0; k < s.size(); ++k) o << (k ? "," : "") << s[k];
            o << "]]";
        }
        o << "}}";
        g_buf = o.str();
        return 1;
    } catch (const std::exception &e) { g_err = e.what(); return 0; }
}
ts_Tensor *inf_value(ts_Module *m, const char *name) {
    try {
        std::unordered_set<Node> seen;
        std::vector<Node> all;
        for (auto &n : m->pointer->outputs()) walk(n, seen, all);
        for (auto &n : all) if (n->name() == name && n->has("#value")) return new ts_Tensor(n->get("#value"));
        return nullptr;
    } catch (const std::exception &e) { g_err = e.what(); return nullptr; }
}
// the operator of the module's output outside of a program: how 0 asks for prototypes (JSON), 1 runs it (a packed tensor of its outputs), 2 both, into JSON and out
int inf_offline(ts_Workbench *w, ts_Module *m, ts_Tensor **x, int n, int how, ts_Tensor **y) {
    try {
        Workbench &b = *w->pointer;
        auto op = b.offline_create(m->pointer->outputs()[0].bubble(), false);
        if (!op) { g_err = "no operator"; return 0; }
        std::vector<Tensor> in, out;
        for (int i = 0; i < n; ++i) in.push_back(*x[i]->pointer);
        if (how != 1) {
            std::vector<Tensor::Prototype> p;
            b.offline_infer(op, in, p);
            std::ostringstream o;
            o << "[";
            for (size_t i = 0; i < p.size(); ++i) { if (i) o << ","; o << "[[" << int(p[i].dtype()) << ",["; for (size_t k = 0; k < p[i].sizes().size(); ++k) o << (k ? "," : "") << p[i].sizes()[k]; o << "]]]"; }
            o << "]";
            g_buf = o.str();
        }
        if (how != 0) {
            b.offline_run(op, in, out);
            for (auto &t : out) t = t.clone();
            if (out.size() == 1) *y = new ts_Tensor(out[0]);
            else { Tensor p; p.pack(out); *y = new ts_Tensor(p); }
        }
        return 1;
    } catch (const std::exception &e) { g_err = e.what(); return 0; }
}
}
