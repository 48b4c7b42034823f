// counting and failing allocator below the library, memory controllers, tensors handed between threads
#include "global/hard_allocator.h"
#include "core/device.h"
#include "core/controller.h"
#include "core/hard_memory.h"
#include "core/sync/sync_controller.h"
#include "memory/flow.h"
#include "utils/box.h"
#include "api/workbench.h"
#include "api/tensor.h"
#include "api/common.h"
#include <atomic>
#include <cstring>
#include <deque>
#include <limits>
#include <mutex>
#include <string>
#include <thread>
#include <unordered_map>
#include <condition_variable>
#include <vector>
using namespace ts;
static std::mutex g_mu;
static std::unordered_map<void *, size_t> *g_map;
static HardAllocator::function g_base;
static int64_t g_bytes, g_calls, g_fired, g_wrong;
static int64_t g_arm = 0, g_left = 0, g_min = 0;
static int g_fill = -1;
static thread_local std::string g_err, g_buf;

static void *counted(int id, size_t n, void *mem, size_t old) {
    bool fail = false;
    {
        std::unique_lock<std::mutex> _(g_mu);
        if (mem) {
            auto it = g_map->find(mem);
            if (it == g_map->end()) ++g_wrong;
            else if (n == 0 || !old) { g_bytes -= int64_t(it->second); g_map->erase(it); }
        }
        if (n) {
            ++g_calls;
            if (g_arm > 0 && int64_t(n) >= g_min && --g_arm < g_left) { if (g_arm == 0) g_arm = 0; fail = true; ++g_fired; }
        }
    }
    // a failure takes the real allocator's own path: the system refuses such a size
    void *p = g_base(id, fail ? (std::numeric_limits<size_t>::max() >> 1) : n, mem, old);
    if (n && p) {
        std::unique_lock<std::mutex> _(g_mu);
        if (mem && old) { auto it = g_map->find(mem); if (it != g_map->end()) { g_bytes -= int64_t(it->second); g_map->erase(it); } }
        (*g_map)[p] = n; g_bytes += int64_t(n);
        if (g_fill >= 0 && !(mem && old)) std::memset(p, g_fill, n);
    }
    return p;
}

struct Ctl {
    std::shared_ptr<MemoryController> m;
    std::shared_ptr<SyncMemoryController> s;
};
struct Mem { Memory m; SyncMemory s; bool sync; Mem() : m(), s() {} };

#define G(bad, ...) try { __VA_ARGS__ } catch (const std::exception &e) { g_err = e.what(); return bad; }
extern "C" {
const char *mm_err() { return g_err.c_str(); }
void mm_install(int fill) {
    if (!g_map) { g_map = new std::unordered_map<void *, size_t>; g_base = HardAllocator::Query(CPU); HardAllocator::Register(CPU, counted); }
    g_fill = fill;
}
int64_t mm_bytes() { std::unique_lock<std::mutex> _(g_mu); return g_bytes; }
int64_t mm_blocks() { std::unique_lock<std::mutex> _(g_mu); return int64_t(g_map->size()); }
int64_t mm_calls() { std::unique_lock<std::mutex> _(g_mu); return g_calls; }
int64_t mm_wrong() { std::unique_lock<std::mutex> _(g_mu); return g_wrong; }
int64_t mm_size_of(void *p) { std::unique_lock<std::mutex> _(g_mu); auto it = g_map->find(p); return it == g_map->end() ? -1 : int64_t(it->second); }
// the n-th allocation from now (of at least `least` bytes) fails, and `more` after it
void mm_arm(int64_t n, int64_t more, int64_t least) { std::unique_lock<std::mutex> _(g_mu); g_arm = n <= 0 ? 0 : n + more; g_left = n <= 0 ? 0 : more + 1; g_min = least; g_fired = 0; }
int64_t mm_fired() { std::unique_lock<std::mutex> _(g_mu); return g_fired; }
const char *mm_size_string(uint64_t n) { g_buf = memory_size_string(n); return g_buf.c_str(); }

// controllers: 0 dynamic, 1 flow, 2 flow behind a sync controller, 3 the same with locks
void *mc_new(int kind) {
    G(nullptr,
      auto c = new Ctl; MemoryDevice d(CPU);
      if (kind == 0) c->m = std::make_shared<DynamicMemoryController>(d);
      if (kind == 1) c->m = std::make_shared<FlowMemoryController>(d);
      if (kind >= 2) c->s = HypeSyncMemoryController<FlowMemoryController>::Make(d, kind == 3);
      return c;)
}
void mc_del(void *c) { delete static_cast<Ctl *>(c); }
void *mc_clone(void *p) { G(nullptr, auto c = static_cast<Ctl *>(p); if (!c->s) return nullptr; auto n = new Ctl; n->s = c->s->clone(); return n;) }
void *mc_alloc(void *p, int64_t n) {
    G(nullptr, auto c = static_cast<Ctl *>(p); auto m = new Mem; m->sync = bool(c->s);
      try { if (c->s) m->s = c->s->alloc(size_t(n)); else m->m = c->m->alloc(size_t(n)); } catch (...) { delete m; throw; }
      return m;)
}
void *mm_data(void *p) { auto m = static_cast<Mem *>(p); return m->sync ? m->s.data() : m->m.data(); }
int64_t mm_size(void *p) { auto m = static_cast<Mem *>(p); return m->sync ? int64_t(m->s.size()) : int64_t(m->m.size()); }
void *mm_copy(void *p) { return new Mem(*static_cast<Mem *>(p)); }
void mm_free(void *p) { delete static_cast<Mem *>(p); }
int64_t mc_summary(void *p) { auto c = static_cast<Ctl *>(p); return c->m ? int64_t(c->m->summary()) : -1; }
const char *mc_summary_s(void *p) { auto c = static_cast<Ctl *>(p); g_buf = c->s ? c->s->summary() : ""; return g_buf.c_str(); }

// hard memory: new, then one operation at a time; returns the data pointer (or -1)
void *hm_new(int64_t n) { G(nullptr, return new HardMemory(MemoryDevice(CPU), size_t(n));) }
int hm_op(void *p, int op, int64_t n) {
    G(-1, auto h = static_cast<HardMemory *>(p);
      switch (op) { case 0: h->expect(size_t(n)); break; case 1: h->shrink(size_t(n)); break; case 2: h->resize(size_t(n)); break; case 3: h->dispose(); break;
        case 4: { HardMemory o(std::move(*h)); *h = std::move(o); break; } default: { MemoryDevice d(CPU); HardMemory o(d, size_t(n)); h->swap(o); } }
      return 0;)
}
void *hm_data(void *p) { return static_cast<HardMemory *>(p)->data(); }
int64_t hm_cap(void *p) { return int64_t(static_cast<HardMemory *>(p)->capacity()); }
void hm_del(void *p) { delete static_cast<HardMemory *>(p); }

// `runs` runs of wb in this thread; the outputs of each are read and freed in others; returns 0, 1 wrong values, 2 a call failed
int mm_cross(ts_Workbench *wb, int nout, int runs, int threads, const void **want, const int64_t *bytes, int hold) {
    std::mutex mu; std::condition_variable cv; std::deque<std::vector<ts_Tensor *>> q; bool done = false;
    std::atomic<int> bad(0);
    auto body = [&] {
        std::deque<std::vector<ts_Tensor *>> mine;
        auto end = [&](std::vector<ts_Tensor *> &v) {
            for (int i = 0; i < nout; ++i) {
                auto sync = ts_Tensor_sync_cpu(v[i]);
                if (!sync || std::memcmp(ts_Tensor_data(v[i]), want[i], size_t(bytes[i])) != 0) bad = 1;
                ts_free_Tensor(v[i]);
            }
        };
        while (true) {
            std::vector<ts_Tensor *> v;
            {
                std::unique_lock<std::mutex> l(mu);
                cv.wait(l, [&] { return done || !q.empty(); });
                if (q.empty()) break;
                v = q.front(); q.pop_front();
            }
            mine.push_back(v);
            if (int(mine.size()) > hold) { end(mine.front()); mine.pop_front(); }
        }
        while (!mine.empty()) { end(mine.front()); mine.pop_front(); }
    };
    std::vector<std::thread> ts;
    for (int i = 0; i < threads; ++i) ts.emplace_back(body);
    for (int r = 0; r < runs && !bad; ++r) {
        if (!ts_Workbench_run(wb)) { bad = 2; break; }
        std::vector<ts_Tensor *> v;
        for (int i = 0; i < nout; ++i) {
            auto t = ts_new_Tensor(nullptr, 0, TS_INT8, nullptr);
            if (!t || !ts_Workbench_output(wb, i, t)) bad = 2;
            v.push_back(t);
        }
        { std::unique_lock<std::mutex> l(mu); q.push_back(v); }
        cv.notify_one();
    }
    { std::unique_lock<std::mutex> l(mu); done = true; }
    cv.notify_all();
    for (auto &t : ts) t.join();
    return bad;
}
}
