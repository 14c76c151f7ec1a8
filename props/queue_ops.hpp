// Shared op-history machinery for the channel properties (C01, C02).
#pragma once
#include "pbt.hpp"
#ifndef PLATFORM
#define SHARE 1
#else
#define SHARE 5
// the library as other platforms see it: 1 without mirrored memory, 2 with BSD's
#include <array>
#include <atomic>
#include <thread>
#include <mutex>
#include <functional>
#include <numeric>
#include <limits>
#include <tuple>
#include <variant>
#include <optional>
#include <chrono>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <sched.h>
#include <dirent.h>
#include <sys/syscall.h>
#include <stdarg.h>
#include <pthread.h>
#undef __linux__
#if PLATFORM == 2
#define __FreeBSD__ 14
#endif
#endif
#include "cler.hpp"
#include <deque>
#include <memory>
#include <malloc.h>

namespace qops {

template <size_t S> struct Pod { unsigned char b[S]; };
template <size_t S, size_t A> struct alignas(A) APod { unsigned char b[S]; };

// item number `id` of size n: every byte depends on id
inline unsigned char patt(uint64_t id, size_t i) {
    uint64_t x = (id + 1) * 0x9E3779B97F4A7C15ull ^ (i * 0xD6E8FEB86659FD93ull);
    x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; return (unsigned char)(x >> 40);
}
inline void put(void* p, size_t n, uint64_t id) {
    unsigned char* c = (unsigned char*)p;
    if (n <= 48) { for (size_t i = 0; i < n; ++i) c[i] = patt(id, i); }
    else { for (size_t i = 0; i < 16; ++i) { c[i] = patt(id, i); c[n - 1 - i] = patt(id, n - 1 - i); c[n / 2 - 8 + i] = patt(id, n / 2 - 8 + i); } }
}
inline bool is(const void* p, size_t n, uint64_t id) {
    const unsigned char* c = (const unsigned char*)p;
    if (n <= 48) { for (size_t i = 0; i < n; ++i) if (c[i] != patt(id, i)) return false; return true; }
    for (size_t i = 0; i < 16; ++i) if (c[i] != patt(id, i) || c[n - 1 - i] != patt(id, n - 1 - i) || c[n / 2 - 8 + i] != patt(id, n / 2 - 8 + i)) return false;
    return true;
}

// uniform, type-erased access to the queue class and to the channel interface
struct Ops {
    const size_t sz, align;
    Ops(size_t s, size_t a) : sz(s), align(a) {}
    virtual ~Ops() = default;
    virtual size_t size() = 0; virtual size_t space() = 0;
    virtual void push(const void*, bool mv) = 0; virtual bool try_push(const void*, bool mv) = 0;
    virtual void pop(void*) = 0; virtual bool try_pop(void*) = 0;
    virtual size_t writeN(const void*, size_t) = 0; virtual size_t readN(void*, size_t) = 0;
    virtual size_t peek_write(char*&, size_t&, char*&, size_t&) = 0;
    virtual size_t peek_read(const char*&, size_t&, const char*&, size_t&) = 0;
    virtual void commit_read(size_t) = 0; virtual void commit_write(size_t) = 0;
    virtual std::pair<const char*, size_t> read_dbf() = 0; virtual std::pair<char*, size_t> write_dbf() = 0;
    virtual long capacity() { return -1; }
    virtual int empty() { return -1; }
    virtual int dbf() = 0;            // contiguous windows offered
    virtual std::pair<const char*, size_t> object() = 0;
};
#define QOPS_WINDOWS(X) \
    size_t peek_write(char*& a, size_t& x, char*& b, size_t& y) override { T *p = (T*)a, *r = (T*)b; size_t t = X.peek_write(p, x, r, y); a = (char*)p; b = (char*)r; return t; } \
    size_t peek_read(const char*& a, size_t& x, const char*& b, size_t& y) override { const T *p = (const T*)a, *r = (const T*)b; size_t t = X.peek_read(p, x, r, y); a = (const char*)p; b = (const char*)r; return t; } \
    void commit_read(size_t n) override { X.commit_read(n); } void commit_write(size_t n) override { X.commit_write(n); } \
    std::pair<const char*, size_t> read_dbf() override { auto r = X.read_dbf(); return {(const char*)r.first, r.second}; } \
    std::pair<char*, size_t> write_dbf() override { auto r = X.write_dbf(); return {(char*)r.first, r.second}; } \
    size_t size() override { return X.size(); } size_t space() override { return X.space(); } \
    void pop(void* v) override { X.pop(*(T*)v); } bool try_pop(void* v) override { return X.try_pop(*(T*)v); } \
    size_t writeN(const void* p, size_t n) override { return X.writeN((const T*)p, n); } size_t readN(void* p, size_t n) override { return X.readN((T*)p, n); }
template <class T, size_t N> struct QOps : Ops {
    dro::SPSCQueue<T, N> q;
    explicit QOps(size_t cap) : Ops(sizeof(T), alignof(T)), q(N ? 0 : cap) {}
    QOPS_WINDOWS(q)
    void push(const void* v, bool mv) override { if (mv) { T t = *(const T*)v; q.push(std::move(t)); } else q.push(*(const T*)v); }
    bool try_push(const void* v, bool mv) override { if (mv) { T t = *(const T*)v; return q.try_push(std::move(t)); } return q.try_push(*(const T*)v); }
    long capacity() override { return (long)q.capacity(); } int empty() override { return q.empty(); }
    int dbf() override { return q.is_doubly_mapped(); }
    std::pair<const char*, size_t> object() override { return {(const char*)&q, sizeof q}; }
};
template <class T, size_t N> struct COps : Ops {
    cler::Channel<T, N>* ch; cler::ChannelBase<T>* c; bool dm;
    explicit COps(size_t cap) : Ops(sizeof(T), alignof(T)) {
        if constexpr (N == 0) ch = new cler::Channel<T>(cap); else ch = new cler::Channel<T, N>();
        c = ch; dm = ch->_queue.is_doubly_mapped();
    }
    ~COps() override { delete c; }
    QOPS_WINDOWS((*c))
    void push(const void* v, bool) override { c->push(*(const T*)v); } bool try_push(const void* v, bool) override { return c->try_push(*(const T*)v); }
    int dbf() override { return dm; }
    std::pair<const char*, size_t> object() override { return {(const char*)ch, sizeof *ch}; }
};

struct Weights { unsigned single, bulk, peek, dbf, query; };

struct Buf {   // aligned scratch for n items
    char* p = nullptr; size_t cap = 0, align;
    explicit Buf(size_t a) : align(std::max<size_t>(a, 16)) {}
    ~Buf() { free(p); }
    char* need(size_t bytes) { if (bytes > cap) { free(p); cap = bytes; p = (char*)aligned_alloc(align, (bytes + align - 1) / align * align); } return p; }
    Buf(const Buf&) = delete;
};
struct History {
    pbt::Src& s; Ops& q; size_t cap; bool dbf; bool heap; size_t sz;
    std::deque<uint64_t> model;
    uint64_t next = 0, wpos = 0;     // wpos: items written so far (position classification)
    size_t wraps = 0, full = 0, empty_hits = 0, partial = 0;
    Buf tmp{q.align}, one{q.align};
    // smallest and largest address seen in windows: bounds of the storage
    const char* lo = nullptr; const char* hi = nullptr;

    size_t free_() const { return cap - model.size(); }
    void wrote(size_t k) { wraps += (wpos % (cap + 1)) + k > cap; wpos += k; }
    size_t amount(size_t avail) {   // 0.. somewhat above what is there
        switch (s.weighted({4, 3, 2, 2, 1})) {
            case 0: return s.below(std::min<size_t>(avail, 7) + 1);
            case 1: return s.below(avail + 1);
            case 2: return avail;
            case 3: return avail + s.below(5);
            default: return avail + 1 + s.below(2 * cap + 3);
        }
    }
    void in_storage(const char* p, size_t n, bool mirrored) {
        const char* a = p; const char* b = a + n * sz;
        CHECK((uintptr_t)p % q.align == 0, "window pointer not aligned for its element type");
        if (!lo || a < lo) lo = a;
        if (!hi || b > hi) hi = b;
        size_t limit = (cap + 1) * sz * (mirrored || dbf ? 2 : 1);
        CHECK((size_t)(hi - lo) <= limit, "windows span %zu bytes, storage for %zu+1 items of %zu bytes", (size_t)(hi - lo), cap, sz);
        if (!heap) { auto o = q.object(); CHECK(a >= o.first && b <= o.first + o.second, "window of a fixed-size channel outside the channel object"); }
    }
    void check_state(const char* after) {
        size_t sz = q.size(), sp = q.space();
        CHECK(sz == model.size(), "size() is %zu, %zu items are in the channel (after %s)", sz, model.size(), after);
        CHECK(sp == cap - model.size(), "space() is %zu, expected %zu of %zu (after %s)", sp, cap - model.size(), cap, after);
        int e = q.empty(); if (e >= 0) CHECK((e != 0) == model.empty(), "empty() is %d with %zu items (after %s)", e, model.size(), after);
        long c = q.capacity(); if (c >= 0) CHECK((size_t)c == cap, "capacity() changed from %zu to %ld (after %s)", cap, c, after);
    }
    void expect(const void* v, const char* how) {
        CHECK(!model.empty(), "%s returned an item from an empty channel", how);
        CHECK(is(v, sz, model.front()), "%s returned a wrong item (expected number %llu)", how, (unsigned long long)model.front());
        model.pop_front();
    }
    void* make(uint64_t id) { char* t = one.need(sz); memset(t, 0xEE, sz); put(t, sz, id); return t; }

    // fills a write window; pattern outside of it must not matter
    void fill(char* p, size_t n, size_t first) { for (size_t i = 0; i < n; ++i) put(p + i * sz, sz, next + first + i); }
    void publish(size_t k) { for (size_t i = 0; i < k; ++i) model.push_back(next + i); next += k; wrote(k); }

    void op_write(const Weights& w) {
        switch (s.weighted({w.single, w.bulk, w.peek, dbf ? w.dbf : 0u})) {
        case 0: {
            bool mv = s.flip();
            if (s.flip() && free_() > 0) { s.note("push "); q.push(make(next), mv); publish(1); }
            else {
                s.note("try_push ");
                bool ok = q.try_push(make(next), mv);
                CHECK(ok == (free_() > 0), "try_push returned %d with %zu free slots", ok, free_());
                if (ok) publish(1); else full++;
            }
            break; }
        case 1: {
            size_t n = amount(free_());
            n = std::min<size_t>(n, 200000);
            s.note("writeN(%zu) ", n);
            n = std::min<size_t>(n, (8u << 20) / sz);
            char* t = tmp.need(n * sz + 1);
            for (size_t i = 0; i < n; ++i) put(t + i * sz, sz, next + i);
            size_t k = q.writeN(t, n);
            CHECK(k == std::min(n, free_()), "writeN(%zu) wrote %zu with %zu free slots", n, k, free_());
            if (k < n) partial++;
            publish(k);
            break; }
        case 2: {
            char *a = nullptr, *b = nullptr; size_t x = 99, y = 99;
            size_t tot = q.peek_write(a, x, b, y);
            s.note("peek_write=%zu+%zu ", x, y);
            CHECK(tot == free_(), "peek_write offers %zu of %zu free slots", tot, free_());
            CHECK(x + y == tot, "peek_write window sizes %zu + %zu do not add up to %zu", x, y, tot);
            CHECK((x == 0) == (tot == 0), "peek_write: empty first window with %zu slots free", tot);
            if (x) in_storage(a, x, false);
            if (y) in_storage(b, y, false);
            size_t k = std::min(amount(tot), tot);
            size_t touched = s.flip() ? tot : k;   // writing the whole window and committing part of it is allowed
            fill(a, std::min(x, touched), 0);
            if (touched > x) fill(b, touched - x, x);
            s.note("commit_write(%zu) ", k);
            q.commit_write(k); publish(k);
            break; }
        default: {
            auto [p, n] = q.write_dbf();
            s.note("write_dbf=%zu ", n);
            CHECK(n == free_(), "write_dbf offers %zu of %zu free slots", n, free_());
            size_t k = std::min(amount(n), n);
            if (n) {
                in_storage(p, n, true);
                size_t touched = s.flip() ? n : k;
                fill(p, touched, 0);
            }
            s.note("commit_write(%zu) ", k);
            q.commit_write(k); publish(k);
        } }
    }
    void op_read(const Weights& w) {
        switch (s.weighted({w.single, w.bulk, w.peek, dbf ? w.dbf : 0u})) {
        case 0: {
            void* v = make(~0ull);
            if (s.flip() && !model.empty()) { s.note("pop "); q.pop(v); expect(v, "pop"); }
            else {
                s.note("try_pop ");
                bool had = !model.empty();
                bool ok = q.try_pop(v);
                CHECK(ok == had, "try_pop returned %d with %zu items", ok, model.size());
                if (ok) expect(v, "try_pop");
                else { empty_hits++; CHECK(is(v, sz, ~0ull), "failed try_pop changed the caller's item"); }
            }
            break; }
        case 1: {
            size_t n = std::min<size_t>(amount(model.size()), 200000);
            s.note("readN(%zu) ", n);
            n = std::min<size_t>(n, (8u << 20) / sz);
            char* t = tmp.need((n + 1) * sz);
            size_t want = std::min(n, model.size());
            put(t + want * sz, sz, ~0ull);
            size_t k = q.readN(t, n);
            CHECK(k == want, "readN(%zu) read %zu with %zu items", n, k, model.size());
            CHECK(is(t + want * sz, sz, ~0ull), "readN wrote past the items it reports");
            if (k < n) partial++;
            for (size_t i = 0; i < k; ++i) expect(t + i * sz, "readN");
            break; }
        case 2: {
            const char *a = nullptr, *b = nullptr; size_t x = 99, y = 99;
            size_t tot = q.peek_read(a, x, b, y);
            s.note("peek_read=%zu+%zu ", x, y);
            CHECK(tot == model.size(), "peek_read offers %zu of %zu items", tot, model.size());
            CHECK(x + y == tot, "peek_read window sizes %zu + %zu do not add up to %zu", x, y, tot);
            CHECK((x == 0) == (tot == 0), "peek_read: empty first window with %zu items", tot);
            if (x) in_storage(a, x, false);
            if (y) in_storage(b, y, false);
            for (size_t i = 0; i < tot; ++i)
                CHECK(is(i < x ? a + i * sz : b + (i - x) * sz, sz, model[i]), "peek_read shows a wrong item at offset %zu of %zu+%zu", i, x, y);
            size_t k = std::min(amount(tot), tot);
            s.note("commit_read(%zu) ", k);
            q.commit_read(k); for (size_t i = 0; i < k; ++i) model.pop_front();
            break; }
        default: {
            auto [p, n] = q.read_dbf();
            s.note("read_dbf=%zu ", n);
            CHECK(n == model.size(), "read_dbf offers %zu of %zu items", n, model.size());
            if (n) in_storage(p, n, true);
            for (size_t i = 0; i < n; ++i) CHECK(is(p + i * sz, sz, model[i]), "read_dbf shows a wrong item at offset %zu of %zu", i, n);
            size_t k = std::min(amount(n), n);
            s.note("commit_read(%zu) ", k);
            q.commit_read(k); for (size_t i = 0; i < k; ++i) model.pop_front();
        } }
    }
};

inline void run_history(pbt::Src& s, Ops& q, size_t requested, bool heap, const Weights& w, size_t maxops) {
    size_t cap = q.space();
    bool dbf = q.dbf();
    const size_t sz = q.sz;
    s.note("T=%zuB requested=%zu capacity=%zu %s: ", sz, requested, cap, heap ? (dbf ? "mirrored" : "heap") : "fixed");
    CHECK(cap >= requested, "a channel asked for %zu slots offers %zu", requested, cap);
    if (!heap) CHECK(cap == requested, "a fixed channel of %zu slots offers %zu", requested, cap);
    CHECK(q.size() == 0, "a new channel reports %zu items", q.size());
    History h{s, q, cap, dbf, heap, sz};
    h.check_state("construction");
    // a short bias phase makes both the full and the empty corner and all wrap positions reachable
    unsigned bias = s.below(3);   // 0 balanced, 1 filling, 2 draining
    for (size_t i = 0; i < maxops && s.more(60); ++i) {
        if (s.chance(1, 12)) bias = s.below(3);
        bool wr = bias == 0 ? s.flip() : bias == 1 ? !s.chance(1, 4) : s.chance(1, 4);
        if (wr) h.op_write(w); else h.op_read(w);
        h.check_state("the last operation");
    }
    // drain in a random style: everything accepted has to come out
    s.note("drain ");
    while (!h.model.empty()) {
        size_t before = h.model.size();
        if (sz * before > 300000 || s.below(4) == 0) {
            char* t = h.tmp.need(sz * before);
            size_t k = q.readN(t, before);
            CHECK(k == before, "readN(%zu) read %zu with %zu items", before, k, before);
            for (size_t i = 0; i < k; ++i) h.expect(t + i * sz, "readN");
        } else h.op_read(w);
        h.check_state("draining");
    }
    CHECK(!q.try_pop(h.make(~0ull)), "an emptied channel still delivers an item");
    s.label(dbf ? "mirrored" : heap ? "heap" : "fixed");
    s.label(h.wraps > 0, "wrapped"); s.label(h.full > 0, "hit full"); s.label(h.partial > 0, "partial bulk");
    s.label(dbf && 4096 % sz != 0, "mirrored, element size does not divide the page");
    s.label(dbf && (cap + 1) * sz >= (2u << 20), "mirrored, 2 MB or more");
    s.nontrivial(h.wraps > 0 || h.full > 0 || h.partial > 0);
}

// one class per element type keeps compile time down; both access layers are covered by several types
using Maker = Ops* (*)(size_t fixed, size_t cap);
template <class T> Ops* via_queue(size_t, size_t cap) { return new QOps<T, 0>(cap); }
template <class T> Ops* via_channel(size_t, size_t cap) { return new COps<T, 0>(cap); }
inline Ops* fixed_a(size_t n, size_t) { switch (n) { case 0: return new COps<uint32_t, 1>(0); case 1: return new COps<uint32_t, 2>(0); default: return new COps<uint32_t, 7>(0); } }
inline Ops* fixed_b(size_t n, size_t) { switch (n) { case 0: return new QOps<Pod<3>, 1>(0); case 1: return new QOps<Pod<3>, 3>(0); default: return new QOps<Pod<3>, 16>(0); } }
inline Ops* fixed_c(size_t n, size_t) { return n == 0 ? (Ops*)new QOps<APod<64, 64>, 2>(0) : (Ops*)new QOps<APod<64, 64>, 61>(0); }

inline void with_fixed(pbt::Src& s, const Weights& w, size_t maxops) {
    static const struct { Maker m; size_t i, n; } k[] = {{fixed_a, 0, 1}, {fixed_a, 1, 2}, {fixed_a, 2, 7}, {fixed_b, 0, 1}, {fixed_b, 1, 3}, {fixed_b, 2, 16}, {fixed_c, 0, 2}, {fixed_c, 1, 61}};
    auto& c = k[s.below(8)];
    std::unique_ptr<Ops> q(c.m(c.i, 0));
    run_history(s, *q, c.n, false, w, maxops);
}
inline void with_kind(pbt::Src& s, Maker make, size_t sz, const Weights& w, bool dbf_only, size_t maxops) {
    size_t kind = dbf_only ? 3 : 1 + s.weighted({3, 2, 3});
    size_t cap;
    size_t per_page = std::max<size_t>(1, 4096 / sz);
    if (kind == 1) cap = 1 + s.below(20);
    else if (kind == 2) cap = 1 + s.below(per_page * 2);
    else {
        // around page multiples: mirrored storage starts at one page
        size_t pages = s.weighted({6, 3, 1, 1});
        size_t bytes = pages == 0 ? 4096 * (1 + s.below(2)) : pages == 1 ? 4096 * (1 + s.below(9)) : pages == 2 ? 4096 * (1 + s.below(600)) : (2u << 20) + 4096 * s.range(-2, 3);
        if (pages >= 2 && sz < 4) bytes = 4096 * (1 + s.below(30));
        size_t n = (bytes + sz - 1) / sz;
        cap = n + s.below(5);
        if (!dbf_only && cap > 3) cap -= 3;
        if (cap == 0) cap = 1;
    }
    std::unique_ptr<Ops> q(make(0, cap));
    run_history(s, *q, cap, true, w, cap * sz > 500000 ? 14 : maxops);
}

inline void with_type(pbt::Src& s, const Weights& w, bool dbf_only, size_t maxops) {
    if (!dbf_only && s.chance(1, 4)) return with_fixed(s, w, maxops);
    static const struct { Maker m; size_t sz; } k[] = {
        {via_queue<uint32_t>, 4}, {via_channel<uint8_t>, 1}, {via_channel<Pod<8>>, 8}, {via_queue<uint16_t>, 2}, {via_queue<Pod<3>>, 3},
        {via_channel<Pod<12>>, 12}, {via_queue<Pod<24>>, 24}, {via_channel<Pod<37>>, 37}, {via_queue<APod<64, 64>>, 64}, {via_queue<Pod<100>>, 100},
        {via_channel<Pod<256>>, 256}, {via_queue<Pod<1500>>, 1500}, {via_queue<Pod<4096>>, 4096}};
    auto& c = k[s.below(13)];
    with_kind(s, c.m, c.sz, w, dbf_only, maxops);
}
} // namespace qops
