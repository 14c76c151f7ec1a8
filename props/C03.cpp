// C03, owned schedule: the queue is compiled with std::atomic and std::memcpy replaced by
// versions that are scheduling points and that implement the C++ memory model (release/acquire
// views, stale relaxed values, vector clocks).  One fiber writes, one reads.
#include "pbt.hpp"
#include "fiber.hpp"
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cstring>
#include <deque>
#include <limits>
#include <memory>
#include <mutex>
#include <new>
#include <numeric>
#include <string>
#include <thread>
#include <type_traits>
#include <utility>
#include <functional>

namespace vm {
constexpr int W = 0, R = 1, SETUP = -1;
struct Clock { uint64_t t[2] = {1, 1}; void join(const Clock& o) { for (int i = 0; i < 2; ++i) t[i] = std::max(t[i], o.t[i]); } };
struct World {
    pbt::Src* s = nullptr; fiber::World* f = nullptr;
    int cur = SETUP;
    Clock c[2];
    bool stale = false; unsigned fresh_run = 0;
    uint64_t switches = 0, stale_reads = 0, points = 0;
    bool armed = false;
    // storage shadow: per element slot and half
    const char* base = nullptr; size_t bytes = 0, esz = 0; bool mirrored = false;
    struct Shadow { uint64_t w[2] = {0, 0}, r[2] = {0, 0}; };
    std::vector<Shadow> sh;
};
inline World*& g() { static World* w = nullptr; return w; }
inline void point() { World* w = g(); if (w && w->armed && w->cur != SETUP) { w->points++; w->f->yield(); } }
// plain access to [p, p+n) by the running thread
inline void touch(const void* p, size_t n, bool write) {
    World* w = g();
    if (!w || !w->armed || w->cur == SETUP || !w->base || n == 0) return;
    const char* q = (const char*)p;
    if (q < w->base || q >= w->base + w->bytes * (w->mirrored ? 2 : 1)) return;
    size_t off = (size_t)(q - w->base);
    int me = w->cur, you = 1 - me;
    for (size_t b = off / w->esz; b <= (off + n - 1) / w->esz; ++b) {
        auto& x = w->sh[b % w->sh.size()];
        CHECK(x.w[you] <= w->c[me].t[you], "data race: the %s %s slot %zu without synchronisation with the %s's write", me == W ? "writer" : "reader", write ? "writes" : "reads", b % w->sh.size(), you == W ? "writer" : "reader");
        if (write) CHECK(x.r[you] <= w->c[me].t[you], "data race: the %s writes slot %zu while the %s may still be reading it", me == W ? "writer" : "reader", b % w->sh.size(), you == W ? "writer" : "reader");
        (write ? x.w : x.r)[me] = w->c[me].t[me];
    }
}
inline void* vcopy(void* d, const void* s, size_t n) {
    World* w = g();
    if (!w || !w->armed || w->cur == SETUP) return memcpy(d, s, n);
    size_t k = w->esz ? std::max<size_t>(1, w->esz / 2) : n;
    for (size_t i = 0; i < n; i += k) {
        size_t m = std::min(k, n - i);
        point();
        touch((char*)d + i, m, true); touch((const char*)s + i, m, false);
        memcpy((char*)d + i, (const char*)s + i, m);
    }
    point();
    return d;
}
} // namespace vm

namespace std {
template <class T> class vm_atomic {
    struct Store { T v; vm::Clock c; bool rel; int by; uint64_t seen_by_clock; };
    mutable std::vector<Store> h_;
    mutable size_t seen_[2] = {0, 0};   // oldest store each thread may still read
    static bool acq(memory_order m) { return m == memory_order_acquire || m == memory_order_acq_rel || m == memory_order_seq_cst || m == memory_order_consume; }
    static bool rel(memory_order m) { return m == memory_order_release || m == memory_order_acq_rel || m == memory_order_seq_cst; }
    void put(T v, memory_order m) {
        auto* w = vm::g(); int me = w ? w->cur : vm::SETUP;
        Store st{v, {}, rel(m), me, 0};
        if (me != vm::SETUP) {
            if (rel(m)) st.c = w->c[me];
            st.seen_by_clock = w->c[me].t[me];
            w->c[me].t[me]++;
        }
        if (!w || !w->armed) h_.clear();
        h_.push_back(st);
        if (me == vm::SETUP) seen_[0] = seen_[1] = h_.size() - 1; else seen_[me] = h_.size() - 1;
    }
public:
    vm_atomic() { h_.push_back({T(), {}, false, vm::SETUP, 0}); }
    vm_atomic(T v) { h_.push_back({v, {}, false, vm::SETUP, 0}); }
    vm_atomic(const vm_atomic&) = delete; vm_atomic& operator=(const vm_atomic&) = delete;
    T load(memory_order m = memory_order_seq_cst) const {
        vm::point();
        auto* w = vm::g(); int me = w ? w->cur : vm::SETUP;
        size_t i = h_.size() - 1;
        if (me != vm::SETUP && w->armed) {
            // happens-before: a store this thread already knows of cannot be skipped
            size_t lo = seen_[me];
            for (size_t k = h_.size(); k-- > lo;) if (h_[k].by != vm::SETUP && h_[k].by != me && h_[k].seen_by_clock <= w->c[me].t[h_[k].by]) { lo = k; break; }
            if (w->stale && i > lo && w->fresh_run < 6 && w->s->chance(1, 3)) { i = lo + w->s->below(i - lo); w->fresh_run++; w->stale_reads++; } else w->fresh_run = 0;
            seen_[me] = i;
            if (acq(m) && h_[i].rel) w->c[me].join(h_[i].c);
        }
        T v = h_[i].v;
        vm::point();
        return v;
    }
    void store(T v, memory_order m = memory_order_seq_cst) { vm::point(); put(v, m); vm::point(); }
    operator T() const { return load(); }
    T operator=(T v) { store(v); return v; }
    T exchange(T v, memory_order m = memory_order_seq_cst) { vm::point(); T o = h_.back().v; rmw(v, m); vm::point(); return o; }
    T fetch_add(T d, memory_order m = memory_order_seq_cst) { vm::point(); T o = h_.back().v; rmw(o + d, m); vm::point(); return o; }
    T fetch_sub(T d, memory_order m = memory_order_seq_cst) { return fetch_add(-d, m); }
    bool compare_exchange_strong(T& e, T d, memory_order m = memory_order_seq_cst, memory_order = memory_order_seq_cst) { vm::point(); if (h_.back().v != e) { e = h_.back().v; return false; } rmw(d, m); return true; }
    bool compare_exchange_weak(T& e, T d, memory_order m = memory_order_seq_cst, memory_order f = memory_order_seq_cst) { return compare_exchange_strong(e, d, m, f); }
    bool is_lock_free() const { return true; }
private:
    void rmw(T v, memory_order m) {
        auto* w = vm::g(); int me = w ? w->cur : vm::SETUP;
        if (me != vm::SETUP && acq(m) && h_.back().rel) w->c[me].join(h_.back().c);
        put(v, m);
    }
};
inline void vm_atomic_thread_fence(memory_order) { vm::point(); }
inline void* vm_memcpy(void* d, const void* s, size_t n) { return vm::vcopy(d, s, n); }
inline void* vm_memmove(void* d, const void* s, size_t n) { return vm::vcopy(d, s, n); }
}
inline void* vm_memcpy(void* d, const void* s, size_t n) { return vm::vcopy(d, s, n); }
inline void* vm_memmove(void* d, const void* s, size_t n) { return vm::vcopy(d, s, n); }

#include "cler_platform.hpp"
#include "virtual_memory/cler_vmem_posix.hpp"
#define atomic vm_atomic
#define memcpy vm_memcpy
#define memmove vm_memmove
#include "cler_spsc-queue.hpp"
#undef atomic
#undef memcpy
#undef memmove

using vm::W; using vm::R;

// an owning-like element whose assignments are torn into two halves with scheduling points
struct Slow {
    uint64_t a = ~0ull; char pad[16]; uint64_t b = ~0ull;
    Slow() = default;
    explicit Slow(uint64_t id) : a(id), b(id ^ 0x5555) {}
    static void halves(Slow& d, const Slow& s) {
        vm::point(); vm::touch(&s.a, 8, false); vm::touch(&d.a, 8, true); d.a = s.a;
        vm::point(); vm::touch(&s.b, 8, false); vm::touch(&d.b, 8, true); d.b = s.b;
        vm::point();
    }
    Slow(const Slow& o) { halves(*this, o); }
    Slow(Slow&& o) noexcept { halves(*this, o); }
    Slow& operator=(const Slow& o) { if (this != &o) halves(*this, o); return *this; }
    Slow& operator=(Slow&& o) noexcept { if (this != &o) halves(*this, o); return *this; }
    ~Slow() = default;
    bool is(uint64_t id) const { return a == id && b == (id ^ 0x5555); }
    void set(uint64_t id) { *this = Slow(id); }
};
template <size_t S> struct Pod {
    uint64_t a; char pad[S - 16]; uint64_t b;
    bool is(uint64_t id) const { return a == id && b == (id ^ 0x5555); }
};
template <size_t S> Pod<S> mk(uint64_t id, Pod<S>*) { Pod<S> p; memset(&p, 0, sizeof p); p.a = id; p.b = id ^ 0x5555; return p; }
inline Slow mk(uint64_t id, Slow*) { return Slow(id); }
struct Tiny { uint32_t a; bool is(uint64_t id) const { return a == (uint32_t)id; } };
inline Tiny mk(uint64_t id, Tiny*) { return Tiny{(uint32_t)id}; }

template <class Q, class T> struct Run {
    pbt::Src& s; Q& q; vm::World& w; bool trivial;
    size_t cap;
    // begun: writes that may be visible, published: writes that are; taken: reads whose slot may be free, consumed: whose slot is
    uint64_t begun = 0, published = 0, taken = 0, consumed = 0;
    bool writer_done = false, in_blocking_push = false, reader_waits = false;
    size_t wraps = 0, fulls = 0, empties = 0;

    // ---- a window access by the caller, in two steps per element
    void wput(T* p, uint64_t id) {
        T v = mk(id, (T*)nullptr);
        if constexpr (std::is_trivially_copyable_v<T>) vm::vcopy(p, &v, sizeof v); else *p = v;
    }
    void rget(const T* p, uint64_t id, const char* how) {
        T v = mk(~1ull, (T*)nullptr);
        if constexpr (std::is_trivially_copyable_v<T>) vm::vcopy(&v, p, sizeof v); else v = *p;
        CHECK(v.is(id), "%s shows a wrong or half-written item where number %llu belongs", how, (unsigned long long)id);
    }
    void wspace(size_t offered, size_t free_at_start, size_t free_at_end, bool exact_lower, const char* how) {
        CHECK(offered <= free_at_end, "%s promises the writer %zu slots, only %zu are free", how, offered, free_at_end);
        if (exact_lower) CHECK(offered >= free_at_start, "%s offers %zu slots, %zu were free when it was called", how, offered, free_at_start);
    }
    size_t freeslots() const { return cap - std::min<size_t>(cap, items()); }   // at least these
    size_t freemax() const { return cap - std::min<size_t>(cap, published > taken ? (size_t)(published - taken) : 0); }
    size_t items() const { return published > consumed ? (size_t)(published - consumed) : 0; }

    void writer(size_t nops, size_t dbf) {
        for (size_t i = 0; i < nops; ++i) {
            size_t f0 = freeslots(); bool fresh = !w.stale;
            unsigned op = s.weighted({3, 3, trivial ? 3u : 0u, 3, dbf ? 3u : 0u, 1});
            switch (op) {
            case 0: { s.note("w:push "); T v = mk(published, (T*)nullptr); in_blocking_push = true; begun++;
                      if (s.flip()) q.push(v); else q.push(std::move(v));
                      in_blocking_push = false; published++; break; }
            case 1: { T v = mk(published, (T*)nullptr); begun++; bool ok = s.flip() ? q.try_push(v) : q.try_push(std::move(v)); s.note("w:try_push=%d ", ok);
                      if (!ok) { begun--; fulls++; if (fresh) CHECK(f0 == 0, "try_push failed although %zu slots were free when it was called", f0); } else published++; break; }
            case 2: { size_t n = 1 + s.below(cap + 2); std::vector<T> v; for (size_t k = 0; k < n; ++k) v.push_back(mk(published + k, (T*)nullptr));
                      begun += n; size_t k = 0;
                      if constexpr (std::is_trivially_copyable_v<T>) k = q.writeN(v.data(), n);
                      s.note("w:writeN(%zu)=%zu ", n, k); CHECK(k <= n, "writeN(%zu) reports %zu", n, k);
                      if (fresh) CHECK(k >= std::min(n, f0), "writeN(%zu) wrote %zu although %zu slots were free", n, k, f0);
                      published += k; begun = published; break; }
            case 3: { T *a, *b; size_t x, y; size_t tot = q.peek_write(a, x, b, y); wspace(tot, f0, freemax(), fresh, "peek_write");
                      CHECK(x + y == tot, "peek_write windows %zu + %zu of %zu", x, y, tot);
                      size_t k = s.below(tot + 1); s.note("w:peek %zu+%zu commit %zu ", x, y, k);
                      size_t touch = s.flip() ? k : tot;
                      for (size_t j = 0; j < touch; ++j) wput(j < x ? a + j : b + (j - x), published + j);
                      begun += k; q.commit_write(k); published += k; break; }
            case 4: { auto [a, tot] = q.write_dbf(); wspace(tot, f0, freemax(), fresh, "write_dbf");
                      size_t k = s.below(tot + 1); s.note("w:dbf %zu commit %zu ", tot, k);
                      size_t touch = s.flip() ? k : tot;
                      for (size_t j = 0; j < touch; ++j) wput(a + j, published + j);
                      begun += k; q.commit_write(k); published += k; break; }
            default: { size_t sp = q.space(); s.note("w:space=%zu ", sp); wspace(sp, f0, freemax(), fresh, "space()");
                       size_t z = q.size(); CHECK(z <= cap && z + freemax() >= cap, "size() tells the writer %zu of %zu with at most %zu slots free", z, cap, freemax());
                       (void)q.empty(); } }
        }
        writer_done = true;
    }
    void got(const T& v, const char* how) {
        CHECK(consumed < begun, "%s returned an item that was never written", how);
        CHECK(v.is(consumed), "%s returned a wrong or half-written item where number %llu belongs", how, (unsigned long long)consumed);
        consumed++;
    }
    // while an operation of the writer is in flight its items may already be visible
    void ritems(size_t offered, size_t had, const char* how) {
        CHECK(offered <= (size_t)(begun - consumed), "%s promises the reader %zu items, at most %zu were written", how, offered, (size_t)(begun - consumed));
        if (!w.stale) CHECK(offered >= had, "%s offers %zu items, %zu were there when it was called", how, offered, had);
    }
    void reader(size_t dbf) {
        size_t idle = 0;
        while (true) {
            if (writer_done && items() == 0) { CHECK(!w.stale ? q.size() == 0 : true, "size() is %zu after everything was read", q.size()); break; }
            size_t n0 = items();
            unsigned op = s.weighted({3, 3, trivial ? 3u : 0u, 3, dbf ? 3u : 0u, 1});
            switch (op) {
            case 0: if (n0 > 0 || (in_blocking_push && begun > consumed)) { s.note("r:pop "); T v = mk(~1ull, (T*)nullptr); taken++; q.pop(v); got(v, "pop"); break; } [[fallthrough]];
            case 1: { T v = mk(~1ull, (T*)nullptr); taken++; bool ok = q.try_pop(v); if (!ok) taken--; s.note("r:try_pop=%d ", ok);
                      if (ok) got(v, "try_pop"); else { empties++; if (!w.stale) CHECK(n0 == 0, "try_pop failed although %zu items were there when it was called", n0); } break; }
            case 2: { size_t n = 1 + s.below(cap + 2); std::vector<T> v(n, mk(~1ull, (T*)nullptr)); size_t k = 0; taken += n;
                      if constexpr (std::is_trivially_copyable_v<T>) k = q.readN(v.data(), n);
                      taken = consumed + k;
                      s.note("r:readN(%zu)=%zu ", n, k); CHECK(k <= n, "readN(%zu) reports %zu", n, k);
                      if (!w.stale) CHECK(k >= std::min(n, n0), "readN(%zu) read %zu although %zu items were there", n, k, n0);
                      for (size_t j = 0; j < k; ++j) got(v[j], "readN"); break; }
            case 3: { const T *a, *b; size_t x, y; size_t tot = q.peek_read(a, x, b, y); ritems(tot, n0, "peek_read");
                      CHECK(x + y == tot, "peek_read windows %zu + %zu of %zu", x, y, tot);
                      for (size_t j = 0; j < tot; ++j) rget(j < x ? a + j : b + (j - x), consumed + j, "peek_read");
                      size_t k = s.chance(1, 3) ? s.below(tot + 1) : tot; s.note("r:peek %zu+%zu commit %zu ", x, y, k);
                      consumed_in(k); break; }
            case 4: { auto [a, tot] = q.read_dbf(); ritems(tot, n0, "read_dbf");
                      for (size_t j = 0; j < tot; ++j) rget(a + j, consumed + j, "read_dbf");
                      size_t k = s.chance(1, 3) ? s.below(tot + 1) : tot; s.note("r:dbf %zu commit %zu ", tot, k);
                      consumed_in(k); break; }
            default: { size_t z = q.size(); s.note("r:size=%zu ", z); ritems(z, n0, "size()");
                       bool e = q.empty(); if (!w.stale && n0) CHECK(!e, "empty() with %zu items there", n0); } }
            if (++idle > 4000) break;
            vm::point();
        }
    }
    void consumed_in(size_t k) { taken += k; q.commit_read(k); consumed += k; }
};

template <class T, size_t N> static void scenario(pbt::Src& s, size_t cap_req) {
    vm::World w; w.s = &s; vm::g() = &w;
    {
        auto q = std::make_unique<dro::SPSCQueue<T, N>>(cap_req);
        fiber::World fw; w.f = &fw;
        w.stale = s.chance(1, 2);
        T *a, *b; size_t x, y; size_t cap = q->peek_write(a, x, b, y);
        w.base = (const char*)a; w.esz = sizeof(T); w.bytes = (cap + 1) * sizeof(T); w.mirrored = q->is_doubly_mapped(); w.sh.resize(cap + 1);
        // start anywhere in the ring
        for (size_t i = s.below(cap + 2); i--;) { const T *c, *d; (void)q->peek_write(a, x, b, y); q->commit_write(1); (void)q->peek_read(c, x, d, y); q->commit_read(1); }
        Run<dro::SPSCQueue<T, N>, T> r{s, *q, w, std::is_trivially_copyable_v<T>, cap};
        s.note("T=%zuB capacity=%zu %s%s: ", sizeof(T), cap, w.mirrored ? "mirrored" : N ? "fixed" : "heap", w.stale ? " weak-memory" : "");
        size_t nops = 1 + s.below(14);
        bool dbf = w.mirrored;
        auto* fW = fw.spawn([&] { r.writer(nops, dbf); });
        auto* fR = fw.spawn([&] { r.reader(dbf); });
        w.armed = true;
        unsigned cur = 0; uint64_t steps = 0;
        // run lengths: mostly a few points, so both preemption-heavy and coarse schedules occur
        unsigned style = s.below(3);
        while (!fW->done || !fR->done) {
            unsigned len = style == 0 ? 1 : style == 1 ? 1 + s.below(4) : 1 + s.below(40);
            bool sw = s.flip();
            if (steps > 40000) len = 200;
            static thread_local uint64_t alone = 0;
            if (sw || alone > 400) { cur ^= 1; w.switches++; alone = 0; }    // a fair scheduler
            alone += len;
            if ((cur ? fR : fW)->done) cur ^= 1;
            for (unsigned k = 0; k < len && !(cur ? fR : fW)->done; ++k) { w.cur = (int)cur; fw.resume(cur ? fR : fW); ++steps; }
            if (steps > 400000) FAIL_CASE("no progress: writer %s, reader %s, %zu items in the channel", fW->done ? "done" : "stuck", fR->done ? "done" : "stuck", r.items());
        }
        w.armed = false; w.cur = vm::SETUP;
        CHECK(r.consumed == r.published, "%llu items written, %llu read", (unsigned long long)r.published, (unsigned long long)r.consumed);
        s.label(w.mirrored, "mirrored"); s.label(N > 0, "fixed"); s.label(w.stale_reads > 0, "stale values returned"); s.label(r.fulls > 0, "hit full"); s.label(r.empties > 0, "hit empty");
        s.label(r.published > cap, "wrapped");
        s.nontrivial(w.switches >= 2 && r.published > 0);
    }
    vm::g() = nullptr;
}

PROPERTY(owned_schedule, 60000, 1200000, "one writer script and one reader script on one channel with a generated schedule at every atomic operation and half element copy, half of the cases under weak memory; non-trivial: at least two preemptions and one item transferred") {
    switch (s.below(7)) {
        case 0: scenario<Slow, 0>(s, 1 + s.below(4)); break;
        case 1: scenario<Pod<24>, 0>(s, 1 + s.below(5)); break;
        case 2: scenario<Pod<24>, 2>(s, 0); break;
        case 3: scenario<Slow, 1>(s, 0); break;
        case 4: scenario<Pod<1024>, 0>(s, 3); break;       // mirrored
        case 5: scenario<Tiny, 0>(s, 1 + s.below(6)); break;
        default: scenario<Slow, 0>(s, 128 + s.below(4)); break;       // mirrored, owning
    }
}
