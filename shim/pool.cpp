// schedules for the thread pool, the parallel loops and the context manager: runs a program of operations, logs what happened
#undef TS_DISABLE_PARALLEL     // the loops as the macros spell them in a build that has them
#include <atomic>
#include <chrono>
#include <cstdint>
#include <deque>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include "runtime/inside/thread_pool.h"
#include "runtime/inside/parallel.h"
#include "utils/box.h"
using namespace ts;
static std::atomic<int64_t> g_seq;
static int64_t tick() { return g_seq.fetch_add(1) + 1; }
static void spend(int d) {
    if (d == 1) std::this_thread::yield();
    else if (d == 2) { auto e = std::chrono::steady_clock::now() + std::chrono::microseconds(20); while (std::chrono::steady_clock::now() < e) {} }
    else if (d == 3) std::this_thread::sleep_for(std::chrono::microseconds(150));
}
struct Task {
    std::atomic<int> runs{0}, afters{0};
    std::atomic<bool> gate{true};
    int sig = -999, asig = -999, payload = 0;
    int64_t sub0 = 0, sub1 = 0, start = 0, end = 0, a0 = 0, a1 = 0;
    int after = 0, who = -1, joined = 0, seen = 0, here = 0, alone = 0;
    std::thread::id by;
};
struct Loop { std::vector<int> hits; int begin = 0; std::atomic<int> badsig{0}, badrange{0}, calls{0}; std::atomic<int> away{0}; int limit = 1; };
struct Op { int kind, a, b, c; int64_t t0 = 0, t1 = 0, v = 0, w = 0; Task *task = nullptr; };
struct Sub { std::vector<Op> ops; int bound = 0; };
static std::function<void(int)> body(Task *t, int dur) {
    return [t, dur](int s) {
        t->start = tick(); t->sig = s; t->runs++; t->by = std::this_thread::get_id();
        while (!t->gate.load()) std::this_thread::sleep_for(std::chrono::microseconds(20));
        spend(dur);
        t->payload = 7;
        t->end = tick();
    };
}
static std::function<void(int)> tail(Task *t, int dur) {
    return [t, dur](int s) { t->a0 = tick(); t->asig = s; spend(dur); t->afters++; t->payload += 1; t->a1 = tick(); };
}
static void loop_body(Loop *l, int dur, int sig, int b, int e, std::thread::id me) {
    l->calls++;
    if (sig < 0 || sig >= l->limit) l->badsig++;
    if (std::this_thread::get_id() != me) l->away++;
    if (b > e && l->hits.size()) l->badrange++;
    for (int i = b; i < e; ++i) {
        int k = i - l->begin;
        if (k < 0 || k >= int(l->hits.size())) { l->badrange++; continue; }
        l->hits[k]++;
    }
    spend(dur);
}
static int loop_bad(Loop *l) {
    int bad = 0;
    for (int h : l->hits) if (h != 1) ++bad;
    return bad + (l->badsig ? 1000000 : 0) + (l->badrange ? 2000000 : 0);
}
static void work(Sub *s, ThreadPool *pool, std::deque<Task> *tasks, int me) {
    std::unique_ptr<ctx::bind<ThreadPool>> bind;
    if (s->bound) bind.reset(new ctx::bind<ThreadPool>(pool));
    Thread *last = nullptr; Task *last_task = nullptr;
    std::deque<Loop> loops; std::vector<std::pair<Op *, Loop *>> pend;
    std::unique_ptr<Thread> own;
    auto id = std::this_thread::get_id();
    auto settle = [&]() { for (auto &p : pend) p.first->v = loop_bad(p.second); pend.clear(); };
    for (auto &op : s->ops) {
        op.t0 = tick();
        Task *t = op.task;
        if (op.kind == 0 || op.kind == 1 || op.kind == 4) {
            bool gated = op.kind == 4 && pool->size() > 0;
            t->gate = !gated; t->sub0 = op.t0; t->who = me;
            last = t->after ? pool->run(body(t, op.a), tail(t, op.b & 3)) : pool->run(body(t, op.a));
            last_task = t;
            t->sub1 = tick();
            if ((last == nullptr) != (pool->size() == 0)) op.w = 1;
            if (gated) {
                for (int i = 0; i < op.c; ++i) {
                    if (!pool->busy()) op.v++;
                    if (!last->busy()) op.v += 1000;
                    spend(op.b & 3);
                }
                t->gate = true;
            }
            if (pool->size() == 0) t->here = t->by == id;
        } else if (op.kind == 2) {
            pool->join(); op.v = pool->busy();
            op.t1 = tick(); settle();
            continue;
        } else if (op.kind == 3) {
            op.v = pool->busy();
        } else if (op.kind == 5) {
            if (last) { last->join(); op.w = 1; last_task->joined = 1; last_task->seen = last_task->payload; op.task = last_task; }
            else op.w = 0;
        } else if (op.kind == 6 || op.kind == 7) {
            loops.emplace_back(); Loop *l = &loops.back();
            l->begin = op.a; l->hits.assign(op.b > 0 ? op.b : 0, 0);
            l->limit = s->bound && pool->size() > 1 ? int(pool->size()) : 1;
            int dur = op.c & 3; bool joinable = !(op.c & 4);
            if (op.kind == 6) parallel_run([=](int g, int b, int e) { loop_body(l, dur, g, b, e, id); }, op.a, op.a + op.b, joinable);
            else parallel_range([=](int g, const Range &r) { loop_body(l, dur, g, r.first, r.second, id); }, op.a, op.a + op.b, joinable);
            if (joinable || !s->bound || pool->size() <= 1 || op.b <= 1) op.v = loop_bad(l);
            else pend.emplace_back(&op, l);
            if (l->limit == 1 && l->away.load()) op.w = 1;
        } else if (op.kind == 8) {
            parallel_sync();
            if (s->bound) settle();
            op.w = int64_t(parallel_size());
        } else if (op.kind == 9) {
            spend(op.a);
        } else if (op.kind == 10) {     // a thread of its own
            if (!own) own.reset(new Thread());
            bool gated = op.c > 0;
            t->gate = !gated; t->who = me; t->sub0 = op.t0; t->alone = 1;
            if (t->after) own->run(op.b, body(t, op.a), tail(t, op.a)); else own->run(op.b, body(t, op.a));
            t->sub1 = tick();
            for (int i = 0; i < op.c; ++i) { if (!own->busy()) op.v++; spend(op.a); }
            t->gate = true;
            own->join();
            t->joined = 1; t->seen = t->payload; op.w = own->busy();
        } else if (op.kind == 11) {     // macros
            std::vector<int> hit(op.b > 0 ? op.b : 0, 0); std::atomic<int> bad{0};
            int lim = s->bound && pool->size() > 1 ? int(pool->size()) : 1;
            TS_PARALLEL_FOR_BEGIN(i, op.a, op.a + op.b)
                if (__parallel_id < 0 || __parallel_id >= lim) bad++;
                hit[i - op.a]++;
            TS_PARALLEL_FOR_END()
            TS_PARALLEL_RANGE_BEGIN(r, op.a, op.a + op.b)
                for (int i = r.first; i < r.second; ++i) hit[i - op.a]++;
            TS_PARALLEL_RANGE_END()
            for (int h : hit) if (h != 2) op.v++;
            if (bad.load()) op.v += 1000000;
            op.w = int64_t(TS_PARALLEL_SIZE);
        }
        op.t1 = tick();
    }
    if (pend.size()) { pool->join(); settle(); }
}
extern "C" {
// prog: pool size, submitters, then for each: bound, number of operations, operations of 4 ints
// log: operations of 6 (t0 t1 v w task kind), then tasks of 14; returns the number of values
int64_t po_run(const int32_t *p, int64_t *log, int64_t *tail_out) {
    g_seq = 0;
    int size = *p++, n = *p++;
    std::deque<Task> tasks; std::vector<Sub> subs(n);
    for (auto &s : subs) {
        s.bound = *p++; int m = *p++;
        for (int i = 0; i < m; ++i, p += 4) {
            Op o; o.kind = p[0]; o.a = p[1]; o.b = p[2]; o.c = p[3];
            if (o.kind == 0 || o.kind == 1 || o.kind == 4 || o.kind == 10) {
                tasks.emplace_back(); o.task = &tasks.back();
                o.task->after = o.kind == 1 || (o.kind == 4 && (o.b & 4)) || (o.kind == 10 && (o.a & 4));
                if (o.kind == 10) o.a &= 3;
            }
            s.ops.push_back(o);
        }
    }
    int idle, fin, psize;
    {
        ThreadPool pool(size);
        psize = int(pool.size());
        idle = pool.busy();
        if (n == 1) work(&subs[0], &pool, &tasks, 0);
        else {
            std::vector<std::thread> ts; std::atomic<int> ready{0};
            for (int i = 0; i < n; ++i) ts.emplace_back([&, i]() { ready++; while (ready.load() < n) std::this_thread::yield(); work(&subs[i], &pool, &tasks, i); });
            for (auto &t : ts) t.join();
        }
        pool.join();
        fin = pool.busy();
    }
    tail_out[0] = idle; tail_out[1] = fin; tail_out[2] = psize; tail_out[3] = tick();
    int64_t *q = log;
    auto idx = [&](Task *t) { for (size_t i = 0; i < tasks.size(); ++i) if (&tasks[i] == t) return int64_t(i); return int64_t(-1); };
    for (auto &s : subs) for (auto &o : s.ops) { *q++ = o.t0; *q++ = o.t1; *q++ = o.v; *q++ = o.w; *q++ = idx(o.task); *q++ = o.kind; }
    for (auto &t : tasks) {
        int64_t r[] = {t.runs, t.afters, t.sig, t.asig, t.sub0, t.sub1, t.start, t.end, t.a0, t.a1, t.after, t.joined ? t.seen : t.payload, t.here, t.alone};
        for (auto x : r) *q++ = x;
    }
    return q - log;
}
// rounds of givers giving tasks to one small pool while joiners join it again and again
int po_crowd(const int32_t *p, int64_t *out) {
    int size = p[0], givers = p[1], joiners = p[2], rounds = p[3], each = p[4], dur = p[5], after = p[6], joins = p[7], swaps = p[8];
    std::atomic<int64_t> runs{0}, afters{0}, bad{0}, early{0};
    int64_t want = 0, wantafter = 0;
    std::unique_ptr<ThreadPool> pool;
    for (int r = 0; r < rounds; ++r) {
        if (!pool || swaps) pool.reset(new ThreadPool(size));
        std::vector<std::atomic<int>> held(size_t(size ? size : 1) * 16);
        for (auto &h : held) h = 0;
        std::atomic<int> ready{0}; int crowd = givers + joiners;
        auto once = [&](int id) {
            bool in = id >= 0 && id < std::max(size, 1);
            if (!in) bad++;
            else if (size && held[size_t(id) * 16]++) bad++;
            if (dur == 1) std::this_thread::yield(); else if (dur == 2) { auto e = std::chrono::steady_clock::now() + std::chrono::microseconds(60); while (std::chrono::steady_clock::now() < e) {} } else if (dur == 3) std::this_thread::sleep_for(std::chrono::microseconds(200));
            if (in && size) held[size_t(id) * 16]--;
        };
        std::vector<std::thread> ts;
        for (int g = 0; g < givers; ++g) ts.emplace_back([&, g]() {
            ready++; while (ready.load() < crowd) std::this_thread::yield();
            for (int i = 0; i < each; ++i) {
                auto ran = std::make_shared<std::atomic<int>>(0);
                bool a = after == 2 || (after == 1 && (i + g) % 2);
                if (a) pool->run([&, ran](int id) { once(id); runs++; *ran = 1; }, [&, ran](int id) { if (*ran != 1) bad++; once(id); afters++; *ran = 2; });
                else pool->run([&, ran](int id) { once(id); runs++; *ran = 2; });
                if (joiners == 0 && i % 3 == 2) { pool->join(); if (*ran != 2) early++; }
            }
        });
        for (int j = 0; j < joiners; ++j) ts.emplace_back([&, j]() {
            ready++; while (ready.load() < crowd) std::this_thread::yield();
            for (int i = 0; i < joins; ++i) {
                auto ran = std::make_shared<std::atomic<int>>(0);
                if ((i + j) % 4 == 3) { pool->run([&, ran](int id) { once(id); *ran = 2; }); pool->join(); if (*ran != 2) early++; }
                else pool->join();
            }
        });
        for (auto &t : ts) t.join();
        pool->join();
        if (pool->busy()) bad++;
        want += int64_t(givers) * each;
        for (int g = 0; g < givers; ++g) for (int i = 0; i < each; ++i) wantafter += after == 2 || (after == 1 && (i + g) % 2);
        if (runs != want || afters != wantafter) early++;
    }
    out[0] = runs; out[1] = want; out[2] = afters; out[3] = wantafter; out[4] = bad; out[5] = early;
    return 0;
}
int po_split(int a, int b, int n, int32_t *out, int cap) {
    auto r = split_bins(a, b, n);
    for (size_t i = 0; i < r.size() && int(i) < cap; ++i) { out[2 * i] = r[i].first; out[2 * i + 1] = r[i].second; }
    return int(r.size());
}
int po_lsplit(uint64_t a, uint64_t b, uint64_t n, uint64_t *out, int cap) {
    auto r = lsplit_bins(a, b, n);
    for (size_t i = 0; i < r.size() && int(i) < cap; ++i) { out[2 * i] = r[i].first; out[2 * i + 1] = r[i].second; }
    return int(r.size());
}
// contexts: a program of bindings per thread; 1 = push a binding, 0 = pop, 2 = set; the current one is logged after every step
int po_ctx(const int32_t *p, int n, int threads, int64_t *out) {
    std::vector<ThreadPool *> pools;
    for (int i = 0; i < 4; ++i) pools.push_back(new ThreadPool(0));
    auto index = [&](ThreadPool *x) -> int64_t { if (!x) return -1; for (int i = 0; i < 4; ++i) if (pools[i] == x) return i; return -2; };
    std::atomic<int> ready{0};
    auto run = [&](int k) {
        const int32_t *q = p + size_t(k) * n * 2; int64_t *o = out + size_t(k) * n;
        ready++; while (ready.load() < threads) std::this_thread::yield();
        std::vector<std::unique_ptr<ctx::bind<ThreadPool>>> st;
        for (int i = 0; i < n; ++i, q += 2) {
            if (q[0] == 1) st.emplace_back(new ctx::bind<ThreadPool>(pools[q[1]]));
            else if (q[0] == 0 && st.size()) st.pop_back();
            else if (q[0] == 2) { if (q[1] < 0) ctx::set<ThreadPool>((ThreadPool *) nullptr); else if (q[1] & 1) ctx::set<ThreadPool>(*pools[q[1]]); else pools[q[1]]->setup_context(); }
            o[i] = index(ctx::get<ThreadPool>());
            if (o[i] != index(ctx::ptr<ThreadPool>())) o[i] = -3;
            try { if (index(&ctx::ref<ThreadPool>()) != o[i]) o[i] = -4; } catch (const Exception &) { if (o[i] != -1) o[i] = -5; }
        }
        while (st.size()) st.pop_back();
        ctx::set<ThreadPool>((ThreadPool *) nullptr);
    };
    std::vector<std::thread> ts;
    for (int k = 0; k < threads; ++k) ts.emplace_back(run, k);
    for (auto &t : ts) t.join();
    for (auto x : pools) delete x;
    return 0;
}
}
