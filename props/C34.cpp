// Fixed-size channels and running flowgraphs use no heap: every allocation is counted
#include "pbt.hpp"
#include "cler.hpp"
#include "task_policies/cler_desktop_tpolicy.hpp"
#include <atomic>
#include <complex>
#include <cstdlib>
#include <memory>
#include <new>
static std::atomic<long> n_alloc{0}, n_live{0}; static std::atomic<bool> counting{false};
extern "C" { void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); int __real_posix_memalign(void**, size_t, size_t); void* __real_aligned_alloc(size_t, size_t); void __real_free(void*); void* __real_mmap(void*, size_t, int, int, int, long);
void* __wrap_malloc(size_t n) { if (counting) ++n_alloc, ++n_live; return __real_malloc(n); } void* __wrap_calloc(size_t a, size_t b) { if (counting) ++n_alloc, ++n_live; return __real_calloc(a, b); } void* __wrap_realloc(void* p, size_t n) { if (counting) ++n_alloc; return __real_realloc(p, n); }
int __wrap_posix_memalign(void** p, size_t a, size_t n) { if (counting) ++n_alloc, ++n_live; return __real_posix_memalign(p, a, n); } void* __wrap_aligned_alloc(size_t a, size_t n) { if (counting) ++n_alloc, ++n_live; return __real_aligned_alloc(a, n); } void __wrap_free(void* p) { if (counting && p) --n_live; __real_free(p); }
void* __wrap_mmap(void* a, size_t n, int p, int f, int fd, long o) { if (counting) ++n_alloc; return __real_mmap(a, n, p, f, fd, o); } }
static void* take(size_t n) { if (counting) ++n_alloc, ++n_live; void* p = __real_malloc(n ? n : 1); if (!p) abort(); return p; } static void* take(size_t n, std::align_val_t a) { if (counting) ++n_alloc, ++n_live; void* p = nullptr; if (__real_posix_memalign(&p, (size_t)a, n ? n : 1)) abort(); return p; } static void give(void* p) { if (counting && p) --n_live; __real_free(p); }
void* operator new(size_t n) { return take(n); } void* operator new[](size_t n) { return take(n); } void* operator new(size_t n, const std::nothrow_t&) noexcept { return take(n); } void* operator new[](size_t n, const std::nothrow_t&) noexcept { return take(n); } void* operator new(size_t n, std::align_val_t a) { return take(n, a); } void* operator new[](size_t n, std::align_val_t a) { return take(n, a); }
void operator delete(void* p) noexcept { give(p); } void operator delete[](void* p) noexcept { give(p); } void operator delete(void* p, size_t) noexcept { give(p); } void operator delete[](void* p, size_t) noexcept { give(p); } void operator delete(void* p, std::align_val_t) noexcept { give(p); } void operator delete[](void* p, std::align_val_t) noexcept { give(p); } void operator delete(void* p, size_t, std::align_val_t) noexcept { give(p); } void operator delete[](void* p, size_t, std::align_val_t) noexcept { give(p); }
struct Count { long a0; Count() { a0 = n_alloc; counting = true; } long stop() { counting = false; return n_alloc - a0; } ~Count() { counting = false; } };

struct Op { int k; size_t n; };
static const char* names[] = {"push", "try_push", "writeN", "peek_write", "write_dbf", "pop", "try_pop", "readN", "peek_read", "read_dbf", "size"};
static std::vector<Op> ops(pbt::Src& s) { std::vector<Op> v; do { v.push_back({(int)s.below(11), s.size(1, 40)}); } while (s.more(25)); return v; }
// carries the operations out and returns how many moved something; allocates nothing itself
template <class C, class T> static size_t perform(C& c, const std::vector<Op>& v, T* tmp, size_t cap, bool dbf) {
    size_t moved = 0;
    for (auto& o : v) switch (o.k) {
        case 0: if (c.space()) { c.push(T{}); ++moved; } break;
        case 1: moved += c.try_push(T{}); break;
        case 2: moved += c.writeN(tmp, std::min(o.n, cap)) > 0; break;
        case 3: { T *a, *b; size_t n, m; c.peek_write(a, n, b, m); size_t k = std::min(o.n, n + m); c.commit_write(k); moved += k > 0; break; }
        case 4: if (dbf) { auto [p, n] = c.write_dbf(); size_t k = std::min(o.n, n); (void)p; c.commit_write(k); moved += k > 0; } break;
        case 5: if (c.size()) { T x; c.pop(x); ++moved; } break;
        case 6: { T x; moved += c.try_pop(x); break; }
        case 7: moved += c.readN(tmp, std::min(o.n, cap)) > 0; break;
        case 8: { const T *a, *b; size_t n, m; c.peek_read(a, n, b, m); size_t k = std::min(o.n, n + m); c.commit_read(k); moved += k > 0; break; }
        case 9: if (dbf) { auto [p, n] = c.read_dbf(); size_t k = std::min(o.n, n); (void)p; c.commit_read(k); moved += k > 0; } break;
        default: if (c.size() + c.space() == 0) abort();
    }
    return moved;
}
static void say(pbt::Src& s, const std::vector<Op>& v) { for (auto& o : v) s.note(" %s(%zu)", names[o.k], o.n); }
template <class T, size_t N> static void fixed(pbt::Src& s) {
    auto v = ops(s); s.note("channel of %zu items of %zu bytes in place:", N, sizeof(T)); say(s, v); T tmp[40] = {}; size_t moved = 0; long n;
    { Count k; { cler::Channel<T, N> c; moved = perform(c, v, tmp, 40, false); } n = k.stop(); }
    CHECK(n == 0, "%ld allocations by a channel of fixed size", n); s.nontrivial(moved > 1);
}
struct Big { char x[37]; };
PROPERTY(fixed_channel, 12000, 250000, "items moved through a fixed-size channel made, used and destroyed without one allocation") {
    switch (s.below(6)) { case 0: fixed<uint8_t, 1>(s); break; case 1: fixed<float, 16>(s); break; case 2: fixed<double, 7>(s); break; case 3: fixed<std::complex<float>, 64>(s); break; case 4: fixed<Big, 5>(s); break; default: fixed<int, 1000>(s); }
}
template <class T> static void heap(pbt::Src& s) {
    size_t cap = s.flip() ? s.size(1, 64) : 4096 / sizeof(T) + s.size(0, 4096); auto v = ops(s); s.note("heap channel of %zu items of %zu bytes:", cap, sizeof(T)); say(s, v); std::vector<T> tmp(40); size_t moved = 0; long in_use, all; bool dbf = false;
    { Count k; { cler::Channel<T> c(cap); dbf = c._queue.is_doubly_mapped(); long a0 = n_alloc; moved = perform(c, v, tmp.data(), 40, dbf); in_use = n_alloc - a0; } all = n_live.exchange(0); k.stop(); }
    CHECK(in_use == 0, "%ld allocations while the channel was in use", in_use); CHECK(all == 0, "%ld blocks of memory stay when the channel is gone", all); s.nontrivial(moved > 1); s.label(dbf, "doubly mapped");
}
PROPERTY(heap_channel, 6000, 100000, "items moved through a channel that allocated when made only, and left nothing") {
    switch (s.below(4)) { case 0: heap<uint8_t>(s); break; case 1: heap<float>(s); break; case 2: heap<double>(s); break; default: heap<std::complex<float>>(s); }
}

// a graph of blocks with fixed-size channels
struct Src_ : cler::BlockBase { std::atomic<size_t> made{0}, calls{0}; size_t burst; Src_(size_t b) : BlockBase("source"), burst(b) {}
    cler::Result<cler::Empty, cler::Error> procedure(cler::ChannelBase<float>* o) { ++calls; size_t n = 0; while (n < burst && o->try_push((float)made)) { ++made; ++n; } if (!n) return cler::Error::NotEnoughSpace; return cler::Empty{}; } };
struct Mid : cler::BlockBase { cler::Channel<float, 32> in; std::atomic<size_t> calls{0}; bool soft; Mid(const char* n, bool e) : BlockBase(n), soft(e) {}
    cler::Result<cler::Empty, cler::Error> procedure(cler::ChannelBase<float>* o) { if (++calls % 13 == 0 && soft) return cler::Error::ProcedureError; float x; if (!o->space()) return cler::Error::NotEnoughSpace; if (!in.try_pop(x)) return cler::Error::NotEnoughSamples; o->push(x); return cler::Empty{}; } };
struct End : cler::BlockBase { cler::Channel<float, 32> in; std::atomic<size_t> got{0}, calls{0}; End() : BlockBase("sink") {}
    cler::Result<cler::Empty, cler::Error> procedure() { ++calls; float v[8]; size_t n = in.readN(v, 8); if (!n) return cler::Error::NotEnoughSamples; got += n; return cler::Empty{}; } };
PROPERTY(streamlined, 3000, 50000, "blocks made, called in a generated order and destroyed without one allocation, items arriving") {
    size_t burst = s.size(1, 40); bool soft = s.flip(); std::vector<int> order; do { order.push_back((int)s.below(4)); } while (s.more(60)); long n; size_t got; s.note("burst %zu, %zu calls", burst, order.size());
    { Count k; { Src_ a(burst); Mid b("b", soft), c("a block with a name rather longer than any short string", soft); End e; for (int i : order) switch (i) { case 0: (void)a.procedure(&b.in); break; case 1: (void)b.procedure(&c.in); break; case 2: (void)c.procedure(&e.in); break; default: (void)e.procedure(); } got = e.got; } n = k.stop(); }
    CHECK(n == 0, "%ld allocations by blocks with fixed-size channels", n); s.nontrivial(got > 0);
}
PROPERTY_T(flowgraph, 60, 600, 1, "a flowgraph of four blocks under a generated configuration passed items on, and nothing was allocated from the first round of calls to the end") {
    Src_ a(s.size(1, 40)); bool soft = s.flip(); Mid b("b", soft), c("c", soft); End e; cler::FlowGraphConfig k; k.scheduler = s.flip() ? cler::SchedulerType::ThreadPerBlock : cler::SchedulerType::FixedThreadPool; k.num_workers = s.range(2, 4); k.adaptive_sleep = s.flip(); k.adaptive_sleep_max_us = (double)s.range(1, 200); k.adaptive_sleep_fail_threshold = s.size(0, 20); k.collect_detailed_stats = s.flip(); k.max_calls_per_tick = s.size(1, 50);
    s.note("%s, %zu workers, sleep %d, stats %d, soft errors %d", k.scheduler == cler::SchedulerType::ThreadPerBlock ? "thread per block" : "pool", k.num_workers, (int)k.adaptive_sleep, (int)k.collect_detailed_stats, (int)soft);
    auto g = cler::make_desktop_flowgraph(cler::BlockRunner(&a, &b.in), cler::BlockRunner(&b, &c.in), cler::BlockRunner(&c, &e.in), cler::BlockRunner(&e)); g.run(k);
    auto wait = [&](auto cond) { for (int i = 0; i < 20000 && !cond(); ++i) { timespec t{0, 500000}; nanosleep(&t, nullptr); } };
    wait([&] { return a.calls && b.calls && c.calls && e.calls; }); size_t g0 = e.got; long n; { Count q; wait([&] { return e.got >= g0 + 300; }); n = q.stop(); } size_t moved = e.got - g0; g.stop();
    CHECK(n == 0, "%ld allocations while the flowgraph ran", n); s.nontrivial(moved >= 300);
}
