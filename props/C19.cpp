// C19: a buffer pool's slots: ownership model over take/release histories, and take/release on two threads.
#include "pbt.hpp"
#include "desktop_blocks/blob.hpp"
#include <map>
#include <thread>
static uint8_t pat(uint64_t key, size_t i) { return (uint8_t)(((key + 1) * 0x9E3779B97F4A7C15ull >> 23) + i * 29 + (i >> 8)); }
struct Held { Blob b; uint64_t key; };
static void fill(Blob& b, uint64_t key) { for (size_t i = 0; i < b.len; ++i) b.data[i] = pat(key, i); }
static bool intact(const Blob& b, uint64_t key) { for (size_t i = 0; i < b.len; ++i) if (b.data[i] != pat(key, i)) return false; return true; }

#ifndef ONLY_THREADS
PROPERTY(large, 60, 600, "a pool of thousands of slots is emptied, refilled in another order and emptied again; non-trivial: more slots than 16 bits count") {
    size_t n = s.pick<size_t>({4096, 65535, 65536, 65537, 70000, 131073, 200000}), m = 1 + s.below(6); s.note("slots=%zu size=%zu", n, m); Slab pool(n, m); pbt::Bulk r(s.subseed()); std::vector<Blob> held;
    for (int round = 0; round < 2; ++round) {
        std::vector<char> seen(n, 0);
        for (size_t i = 0; i < n; ++i) {
            auto t = pool.take_slot(); CHECK(t.is_ok(), "no slot although only %zu of %zu are held", i, n); Blob b = t.unwrap(); CHECK(b.slot_idx < n && !seen[b.slot_idx], "slot %zu is held twice", b.slot_idx); seen[b.slot_idx] = 1; CHECK(b.len == m, "slot of %zu bytes", b.len);
            for (size_t k = 0; k < m; ++k) b.data[k] = pat(i, k);
            held.push_back(b);
        }
        CHECK(pool.take_slot().is_err(), "a pool with all %zu slots held handed out another", n);
        for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < m; ++k) CHECK(held[i].data[k] == pat(i, k), "data of slot %zu changed while it was held", held[i].slot_idx);
        for (size_t i = n; i > 1; --i) std::swap(held[i - 1], held[r.below(i)]);
        for (auto& b : held) b.release();
        held.clear(); CHECK(pool.available_slots() == n, "%zu free slots of %zu", pool.available_slots(), n);
    }
    s.nontrivial(n > 65536);
}
PROPERTY(history, 6000, 60000, "the pool was emptied at least once and a slot was taken again after a release") {
    size_t n = (size_t)s.weighted({3, 3, 2, 1}), m;
    n = n == 0 ? s.range(1, 4) : n == 1 ? s.range(5, 40) : n == 2 ? s.range(41, 600) : s.range(600, 1500);
    m = s.weighted({3, 2, 1}) == 0 ? s.range(1, 64) : s.range(0, 5000);
    if (n * m > 400000) m = 400000 / n;
    s.note("slots=%zu size=%zu", n, m);
    Slab pool(n, m);
    CHECK(pool.capacity() == n, "capacity %zu of %zu slots", pool.capacity(), n);
    CHECK(pool.max_blob_size() == m, "slot size %zu, asked %zu", pool.max_blob_size(), m);
    std::vector<Held> held; uint64_t key = 0; bool emptied = false, again = false; size_t released = 0;
    auto take = [&](bool expect) {
        auto r = pool.take_slot();
        if (!expect) { CHECK(r.is_err(), "a pool with all %zu slots held handed out another", n); emptied = true; return; }
        CHECK(r.is_ok(), "no slot although only %zu of %zu are held (%zu released so far)", held.size(), n, released);
        Blob b = r.unwrap();
        CHECK(b.len == m, "slot of %zu bytes, pool has %zu", b.len, m);
        CHECK(b.slot_idx < n, "slot number %zu of %zu", b.slot_idx, n);
        CHECK(b.owner_slab == &pool, "slot without its pool");
        for (auto& h : held) {
            CHECK(h.b.slot_idx != b.slot_idx, "slot %zu is held twice", b.slot_idx);
            if (m) CHECK(h.b.data + m <= b.data || b.data + m <= h.b.data, "slots %zu and %zu overlap", h.b.slot_idx, b.slot_idx);
        }
        fill(b, ++key); held.push_back({b, key}); again |= released > 0;
    };
    auto give = [&](size_t i) {
        CHECK(intact(held[i].b, held[i].key), "data of slot %zu changed while it was held", held[i].b.slot_idx);
        size_t before = pool.available_slots();
        if (s.flip()) {
            held[i].b.release();
#ifdef NDEBUG
            if (s.chance(1, 4)) held[i].b.release();   // a released blob is no longer a holder: releasing it again has no effect
#endif
        } else pool.release_slot(held[i].b.slot_idx);
        CHECK(pool.available_slots() == before + 1, "release left %zu free slots, %zu before", pool.available_slots(), before);
        held.erase(held.begin() + i); ++released;
    };
    int mode = 0; size_t steps = s.size(5, n > 100 ? 40 : 200);
    for (size_t k = 0; k < steps; ++k) {
        switch (s.weighted({6, 6, 1, 1, 1, 1})) {
        case 0: take(held.size() < n); break;
        case 1: if (!held.empty()) give(s.chance(1, 3) ? 0 : s.below(held.size())); break;
        case 2: while (held.size() < n) take(true); take(false); break;
        case 3: while (!held.empty()) give(s.chance(1, 2) ? held.size() - 1 : 0); break;
        case 4: { size_t r = s.range(1, 2 * n + 5); if (held.size() < n) for (size_t j = 0; j < r && j < 4000; ++j) { take(true); give(held.size() - 1); } break; }
        default: if (!held.empty()) { size_t i = s.below(held.size()); CHECK(intact(held[i].b, held[i].key), "data of slot %zu changed while it was held", held[i].b.slot_idx); fill(held[i].b, held[i].key = ++key); }
        }
        CHECK(pool.available_slots() == n - held.size(), "%zu free slots reported with %zu of %zu held", pool.available_slots(), held.size(), n);
    }
    for (auto& h : held) CHECK(intact(h.b, h.key), "data of slot %zu changed while it was held", h.b.slot_idx);
    while (!held.empty()) give(0);
    for (size_t i = 0; i < n; ++i) take(true);
    take(false); (void)mode;
    if (emptied && again) s.nontrivial();
    s.label(n == 1 ? "one slot" : n < 41 ? "few slots" : "many slots");
}

#endif
PROPERTY_T(two_threads, 60, 600, 40, "the pool ran empty during the run, and slots were reused") {
    size_t n = s.range(1, 12), m = s.range(1, 200); uint64_t rounds = s.range(500, 4000);
    int slow = (int)s.below(3); s.note("slots=%zu size=%zu rounds=%zu slow=%d", n, m, (size_t)rounds, slow);
    Slab pool(n, m); cler::Channel<Blob> ch(n + 2); std::atomic<bool> stop{false}; std::string err; bool dry = false;
    std::thread user([&] {
        for (uint64_t k = 1; k <= rounds && !stop;) {
            Blob b; if (!ch.try_pop(b)) { std::this_thread::yield(); continue; }
            if (slow == 1 && k % 7 == 0) std::this_thread::yield();
            if (!intact(b, k)) { err = "data of a slot changed on its way to another thread"; stop = true; return; }
            b.release(); ++k;
        }
    });
    for (uint64_t k = 1; k <= rounds && !stop;) {
        auto r = pool.take_slot();
        if (r.is_err()) { dry = true; std::this_thread::yield(); continue; }
        Blob b = r.unwrap(); b.len = m; fill(b, k);
        if (slow == 2 && k % 5 == 0) std::this_thread::yield();
        ch.push(b); ++k;
    }
    user.join();
    CHECK(err.empty(), "%s", err.c_str());
    CHECK(pool.available_slots() == n, "%zu of %zu slots came back", pool.available_slots(), n);
    if (dry && rounds > n) s.nontrivial();
}
