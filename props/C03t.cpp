// C03, real threads under ThreadSanitizer
#include "pbt.hpp"
#include "cler.hpp"
#include <thread>
#include <atomic>

template <size_t S> struct Pod { uint64_t a; unsigned char pad[S - 16]; uint64_t b;
    bool is(uint64_t id) const { return a == id && b == (id ^ 0x77); } };
template <size_t S> static Pod<S> mk(uint64_t id, Pod<S>*) { Pod<S> p; memset(&p, 0, sizeof p); p.a = id; p.b = id ^ 0x77; return p; }
static bool is(uint32_t v, uint64_t id) { return v == (uint32_t)id; }
template <size_t S> static bool is(const Pod<S>& p, uint64_t id) { return p.is(id); }
static uint32_t mk(uint64_t id, uint32_t*) { return (uint32_t)id; }
struct Own { std::unique_ptr<uint64_t> p; Own() = default; };
static Own mk(uint64_t id, Own*) { Own o; o.p = std::make_unique<uint64_t>(id); return o; }
static bool is(const Own& o, uint64_t id) { return o.p && *o.p == id; }

template <class T> struct Copy { static constexpr bool v = std::is_trivially_copyable_v<T>; };

template <class T, class C> static void both(pbt::Src& s, C& q, bool dbf) {
    const size_t cap = q.space();
    uint64_t total = 200 + s.below(3000);
    uint64_t sw = s.subseed(), sr = s.subseed();
    unsigned wstyle = s.below(3), rstyle = s.below(3);
    s.note("T=%zuB capacity=%zu %s items=%llu", sizeof(T), cap, dbf ? "mirrored" : "plain", (unsigned long long)total);
    constexpr bool triv = std::is_trivially_copyable_v<T>;
    std::thread w([&] {
        pbt::Bulk r(sw); uint64_t n = 0;
        std::vector<T> buf(triv ? 64 : 0);
        while (n < total) {
            unsigned op = r.below(triv ? 6 : 3);
            if (wstyle == 1 && triv) op = 3 + r.below(3);
            if (op == 5 && !dbf) op = 4;
            if (op == 0) { T v = mk(n, (T*)nullptr); q.push(std::move(v)); n++; }
            else if (op <= 1) { T v = mk(n, (T*)nullptr); if (q.try_push(std::move(v))) n++; }
            else if (op == 2) { size_t sp = q.space(); CHECK(sp <= cap, "space() %zu of %zu", sp, cap); for (; sp && n < total; --sp) { CHECK(q.try_push(mk(n, (T*)nullptr)), "space() promised a slot that is not there"); n++; } }
            else if constexpr (triv) {
                if (op == 3) { size_t k = std::min<uint64_t>(1 + r.below(64), total - n); for (size_t i = 0; i < k; ++i) buf[i] = mk(n + i, (T*)nullptr); n += q.writeN(buf.data(), k); }
                else if (op == 4) { T *a, *b; size_t x, y; size_t t = q.peek_write(a, x, b, y); size_t k = std::min<uint64_t>(r.below(t + 1), total - n); for (size_t i = 0; i < k; ++i) (i < x ? a[i] : b[i - x]) = mk(n + i, (T*)nullptr); q.commit_write(k); n += k; }
                else { auto [a, t] = q.write_dbf(); size_t k = std::min<uint64_t>(r.below(t + 1), total - n); for (size_t i = 0; i < k; ++i) a[i] = mk(n + i, (T*)nullptr); q.commit_write(k); n += k; }
            }
            if (wstyle == 2 && r.below(8) == 0) std::this_thread::yield();
        }
    });
    std::thread rd([&] {
        pbt::Bulk r(sr); uint64_t n = 0;
        std::vector<T> buf(triv ? 64 : 0);
        while (n < total) {
            unsigned op = r.below(triv ? 6 : 3);
            if (rstyle == 1 && triv) op = 3 + r.below(3);
            if (op == 5 && !dbf) op = 4;
            if (op == 0) { T v{}; q.pop(v); CHECK(is(v, n), "pop: wrong item at %llu", (unsigned long long)n); n++; }
            else if (op == 1) { T v{}; if (q.try_pop(v)) { CHECK(is(v, n), "try_pop: wrong item at %llu", (unsigned long long)n); n++; } }
            else if (op == 2) { size_t k = q.size(); CHECK(k <= cap, "size() %zu of %zu", k, cap); for (; k; --k) { T v{}; CHECK(q.try_pop(v), "size() promised an item that is not there"); CHECK(is(v, n), "wrong item at %llu", (unsigned long long)n); n++; } }
            else if constexpr (triv) {
                if (op == 3) { size_t k = q.readN(buf.data(), 1 + r.below(64)); for (size_t i = 0; i < k; ++i) { CHECK(is(buf[i], n), "readN: wrong item at %llu", (unsigned long long)n); n++; } }
                else if (op == 4) { const T *a, *b; size_t x, y; size_t t = q.peek_read(a, x, b, y); size_t k = r.below(t + 1); for (size_t i = 0; i < k; ++i) CHECK(is(i < x ? a[i] : b[i - x], n + i), "peek_read: wrong item at %llu", (unsigned long long)(n + i)); q.commit_read(k); n += k; }
                else { auto [a, t] = q.read_dbf(); size_t k = r.below(t + 1); for (size_t i = 0; i < k; ++i) CHECK(is(a[i], n + i), "read_dbf: wrong item at %llu", (unsigned long long)(n + i)); q.commit_read(k); n += k; }
            }
            if (rstyle == 2 && r.below(8) == 0) std::this_thread::yield();
        }
    });
    w.join(); rd.join();
    CHECK(q.size() == 0, "%zu items left over", q.size());
    s.nontrivial(total > 2 * cap || dbf);
    s.label(total > cap, "wrapped"); s.label(dbf, "mirrored");
}
PROPERTY_T(real_threads, 1200, 20000, 20, "one writer thread and one reader thread with random scripts under ThreadSanitizer; non-trivial: the channel was filled more than twice over, or is mirrored") {
    switch (s.below(6)) {
        case 0: { cler::Channel<uint32_t> c(1 + s.below(40)); both<uint32_t>(s, c, false); break; }
        case 1: { cler::Channel<uint32_t> c(1023); both<uint32_t>(s, c, c._queue.is_doubly_mapped()); break; }
        case 2: { cler::Channel<Pod<64>, 7> c; both<Pod<64>>(s, c, false); break; }
        case 3: { cler::Channel<Pod<64>> c(63 + s.below(3)); both<Pod<64>>(s, c, c._queue.is_doubly_mapped()); break; }
        case 4: { dro::SPSCQueue<Own> c(1 + s.below(6)); both<Own>(s, c, false); break; }
        default: { cler::Channel<Pod<24>> c(1 + s.below(3)); both<Pod<24>>(s, c, false); break; }
    }
}
