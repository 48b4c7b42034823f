// operators of plugins that throw through the C API, a plugin of the C++ wrapper, and direct access to Operator::infer
#include "api/cpp/operator.h"
#include "api/cpp/tensor.h"
#include "api/declare_tensor.h"
#include "core/tensor_builder.h"
#include "global/operator_factory.h"
#include "core/device_context.h"
#include "runtime/runtime.h"
#include "runtime/stack.h"
#include "runtime/workbench.h"
#include "module/bubble.h"
#include "utils/ctxmgr_lite.h"
#include <string>
#include <vector>
#include <memory>
static thread_local std::string g_err;
static int g_countdown = -1;        // the call that throws
static std::string g_msg;
static int g_live = 0;

// y = [scale * sum(args), args[0]] by the C++ wrapper
class Affine : public ts::api::Operator {
public:
    Affine() { ++g_live; }
    ~Affine() override { --g_live; }
    void init(const ts::api::OperatorParams &params, ts_OperatorContext *) override {
        auto s = params.get("scale");
        if (s.get_raw() == nullptr) Throw("no scale", "plug.cpp", 1);
        m_scale = ts::api::tensor::to_float(s);
        if (m_scale > 1e6f) Throw("large scale");
    }
    std::vector<std::pair<ts::api::DTYPE, ts::api::Shape>> infer(const std::vector<ts::api::Tensor> &args, ts_OperatorContext *) override {
        return {{args[0].dtype(), args[0].sizes()}, {args[0].dtype(), args[0].sizes()}};
    }
    std::vector<ts::api::Tensor> run(const std::vector<ts::api::Tensor> &args, ts_OperatorContext *) override {
        if (g_countdown == 0) { --g_countdown; TS_THROW(g_msg); }
        if (g_countdown > 0) --g_countdown;
        ts::api::Tensor y(ts::api::Tensor::InFlow::HOST, args[0].dtype(), args[0].sizes());
        auto n = args[0].count();
        for (int i = 0; i < n; ++i) {
            float v = 0;
            for (auto &a : args) v += a.data<float>()[i];
            y.data<float>()[i] = v * m_scale;
        }
        return {y, args[0]};
    }
private:
    float m_scale = 0;
};

extern "C" {
const char *tv_err() { return g_err.c_str(); }
void tv_plug_register() { ts::api::RegisterOperator<Affine>("cpu", "tv_affine"); }
void tv_plug_throw(int countdown, const char *msg) { g_countdown = countdown; g_msg = msg; }
int tv_plug_live() { return g_live; }
// functions to be registered
void tv_throw_init(void *, const ts_OperatorParams *, ts_OperatorContext *) { ts_Operator_Throw(g_msg.c_str()); }
ts_bool tv_throw_init_ex(void *, const ts_OperatorParams *, ts_OperatorContext *) { ts_Operator_ThrowV2(g_msg.c_str(), "plug.cpp", 7); return 1; }
ts_Tensor *tv_throw_run(void *, int32_t, ts_Tensor **, ts_OperatorContext *) { ts_Operator_Throw(g_msg.c_str()); return nullptr; }
// [fields, (dtype, dims, shape...)...] or -1
int tv_op_infer(const char *op, ts_Tensor **args, int n, int32_t *out, int cap) {
    try {
        ts::Workbench bench(ts::ComputingDevice(ts::CPU, 0));
        ts::Bubble bubble(op, "node");
        if (std::string(op) == "tv_affine") bubble.set("scale", ts::tensor::from<float>(2.0f));
        auto o = bench.offline_create(bubble, false);
        std::vector<ts::Tensor> inputs;
        for (int i = 0; i < n; ++i) inputs.push_back(**args[i]);
        std::vector<ts::Tensor::Prototype> protos;
        bench.offline_infer(o, inputs, protos);
        int k = 0;
        auto put = [&](int v) { if (k < cap) out[k] = v; ++k; };
        put(int(protos.size()));
        for (auto &p : protos) { put(p.dtype()); put(int(p.dims())); for (auto d : p.sizes()) put(d); }
        return k;
    } catch (const std::exception &e) { g_err = e.what(); return -1; }
}
}
