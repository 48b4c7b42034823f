// preloaded: counts what C++ code holds through operator new
#include <atomic>
#include <cstdint>
#include <cstdlib>
#include <malloc.h>
#include <new>
static std::atomic<int64_t> g_n(0), g_b(0);
static void *get(std::size_t n, std::size_t) {
    void *p = std::malloc(n ? n : 1);
    if (p) { g_n.fetch_add(1, std::memory_order_relaxed); g_b.fetch_add(int64_t(malloc_usable_size(p)), std::memory_order_relaxed); }
    return p;
}
static void put(void *p) noexcept {
    if (!p) return;
    g_n.fetch_sub(1, std::memory_order_relaxed); g_b.fetch_sub(int64_t(malloc_usable_size(p)), std::memory_order_relaxed);
    std::free(p);
}
static void *must(std::size_t n, std::size_t al = 0) { void *p = get(n, al); if (!p) throw std::bad_alloc(); return p; }
void *operator new(std::size_t n) { return must(n); }
void *operator new[](std::size_t n) { return must(n); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { return get(n, 0); }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { return get(n, 0); }
void operator delete(void *p) noexcept { put(p); }
void operator delete[](void *p) noexcept { put(p); }
void operator delete(void *p, std::size_t) noexcept { put(p); }
void operator delete[](void *p, std::size_t) noexcept { put(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { put(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { put(p); }
extern "C" int64_t cnt_blocks() { return g_n.load(); }
extern "C" int64_t cnt_bytes() { return g_b.load(); }
