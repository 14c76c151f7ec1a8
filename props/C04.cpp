// C04: element types that own resources
#include "pbt.hpp"
#include "cler.hpp"
#include <memory>
#include <deque>
#include <string>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#include <malloc.h>

// ledger of live objects: every construction and destruction is recorded by address
struct Ledger {
    std::unordered_set<const void*> live;
    uint64_t made = 0, dead = 0, resources = 0;
};
static Ledger* L;
static constexpr uint64_t NONE = ~0ull;
struct Res {     // a resource: exactly one owner (move only) or shared count (copyable variant)
    uint64_t id; explicit Res(uint64_t i) : id(i) { L->resources++; } ~Res() { L->resources--; }
    Res(const Res& o) : id(o.id) { L->resources++; }
};
template <bool COPY, size_t PAD> struct Owner {
    const Owner* self; Res* r = nullptr; char pad[PAD];
    void born() { self = this; CHECK(L->live.insert(this).second, "an object is constructed where one is alive already"); L->made++; }
    void alive(const char* what) const { CHECK(L->live.count(this) && self == this, "%s of an object that is not alive", what); }
    Owner() { born(); }
    explicit Owner(uint64_t id) { born(); r = new Res(id); }
    Owner(const Owner& o) { static_assert(COPY); o.alive("copy"); born(); r = o.r ? new Res(*o.r) : nullptr; }
    Owner(Owner&& o) noexcept { o.alive("move"); born(); r = o.r; o.r = nullptr; }
    Owner& operator=(const Owner& o) { static_assert(COPY); alive("assignment"); o.alive("copy"); if (this != &o) { delete r; r = o.r ? new Res(*o.r) : nullptr; } return *this; }
    Owner& operator=(Owner&& o) noexcept { alive("assignment"); o.alive("move"); if (this != &o) { delete r; r = o.r; o.r = nullptr; } return *this; }
    ~Owner() { alive("destruction"); L->live.erase(this); L->dead++; delete r; self = nullptr; }
    uint64_t id() const { alive("access"); return r ? r->id : NONE; }
};
// move only: copying does not compile
template <size_t PAD> struct MoveOnly {
    const MoveOnly* self; std::unique_ptr<Res> r; char pad[PAD];
    void born() { self = this; CHECK(L->live.insert(this).second, "an object is constructed where one is alive already"); L->made++; }
    void alive(const char* what) const { CHECK(L->live.count(this) && self == this, "%s of an object that is not alive", what); }
    MoveOnly() { born(); }
    explicit MoveOnly(uint64_t id) { born(); r = std::make_unique<Res>(id); }
    MoveOnly(MoveOnly&& o) noexcept { o.alive("move"); born(); r = std::move(o.r); }
    MoveOnly& operator=(MoveOnly&& o) noexcept { alive("assignment"); o.alive("move"); r = std::move(o.r); return *this; }
    ~MoveOnly() { alive("destruction"); L->live.erase(this); L->dead++; self = nullptr; }
    uint64_t id() const { alive("access"); return r ? r->id : NONE; }
};
// copy only: no move operations, so every transfer is a copy
template <size_t PAD> struct CopyOnly {
    const CopyOnly* self; Res* r = nullptr; char pad[PAD];
    void born() { self = this; CHECK(L->live.insert(this).second, "an object is constructed where one is alive already"); L->made++; }
    void alive(const char* what) const { CHECK(L->live.count(this) && self == this, "%s of an object that is not alive", what); }
    CopyOnly() { born(); }
    explicit CopyOnly(uint64_t id) { born(); r = new Res(id); }
    CopyOnly(const CopyOnly& o) { o.alive("copy"); born(); r = o.r ? new Res(*o.r) : nullptr; }
    CopyOnly& operator=(const CopyOnly& o) { alive("assignment"); o.alive("copy"); if (this != &o) { delete r; r = o.r ? new Res(*o.r) : nullptr; } return *this; }
    ~CopyOnly() { alive("destruction"); L->live.erase(this); L->dead++; delete r; self = nullptr; }
    uint64_t id() const { alive("access"); return r ? r->id : NONE; }
};

enum Kind { KCopy, KMove, KCopyOnly };
template <class T, Kind K, class Q> static void history(pbt::Src& s, Q& q, bool base) {
    std::deque<uint64_t> model; uint64_t next = 0;
    const size_t cap = q.space();
    size_t taken = 0, maxn = 0, wrapped = 0, windows = 0;
    auto kept = [&](const T& v, uint64_t id, const char* how) { CHECK(v.id() == id, "%s changed the caller's item", how); };
    for (size_t i = 0; i < 90 && s.more(30); ++i) {
        switch (s.weighted({3, 3, 3, 2, 1, 1})) {
        case 0: if constexpr (K != KMove) { // push from a const item
            const T v(next); size_t fr = cap - model.size();
            if (fr && s.flip()) { s.note("push(const) "); q.push(v); kept(v, next, "push(const&)"); model.push_back(next++); }
            else { s.note("try_push(const) "); bool ok = q.try_push(v); CHECK(ok == (fr > 0), "try_push %d with %zu free", ok, fr); kept(v, next, "try_push(const&)"); if (ok) model.push_back(next); next++; }
            break; } [[fallthrough]];
        case 1: { T v(next); size_t fr = cap - model.size();
            if constexpr (K != KMove) if (s.chance(1, 4)) { // an lvalue that is not const: still the caller's
                s.note("try_push(lvalue) "); bool ok = q.try_push(v); CHECK(ok == (fr > 0), "try_push %d with %zu free", ok, fr); kept(v, next, "try_push(lvalue)"); if (ok) model.push_back(next); next++; break; }
            if (fr && s.flip()) { s.note("push(move) "); q.push(std::move(v)); model.push_back(next++); }
            else { s.note("try_push(move) "); bool ok = q.try_push(std::move(v)); CHECK(ok == (fr > 0), "try_push %d with %zu free", ok, fr);
                   if (!ok) kept(v, next, "a failed try_push"); else model.push_back(next); next++; }
            break; }
        case 2: { T v(NONE - 1); size_t n = model.size();
            bool ok;
            if (n && s.flip()) { s.note("pop "); q.pop(v); ok = true; } else { s.note("try_pop "); ok = q.try_pop(v); }
            CHECK(ok == (n > 0), "try_pop %d with %zu items", ok, n);
            if (ok) { CHECK(v.id() == model.front(), "an item came out with the wrong resource (expected %llu, got %lld)", (unsigned long long)model.front(), (long long)v.id()); model.pop_front(); taken++; }
            else kept(v, NONE - 1, "a failed try_pop");
            break; }
        case 3: { // hand-over through a write window
            T *a, *b; size_t x, y; size_t t = q.peek_write(a, x, b, y); CHECK(t == cap - model.size(), "peek_write offers %zu of %zu", t, cap - model.size());
            if (!t) break;
            size_t k = 1 + s.below(std::min<size_t>(t, 6)); s.note("window write %zu ", k);
            for (size_t j = 0; j < k; ++j) { (j < x ? a[j] : b[j - x]) = T(next); model.push_back(next++); }
            q.commit_write(k); windows++; break; }
        case 4: { const T *a, *b; size_t x, y; size_t t = q.peek_read(a, x, b, y); CHECK(t == model.size(), "peek_read shows %zu of %zu", t, model.size());
            for (size_t j = 0; j < t; ++j) CHECK((j < x ? a[j] : b[j - x]).id() == model[j], "a read window shows the wrong item at %zu", j);
            if (s.flip() && t) { size_t k = 1 + s.below(std::min<size_t>(t, 6)); s.note("window read %zu ", k);
                // take the resource out of the window, then commit
                for (size_t j = 0; j < k; ++j) { T mine(std::move(const_cast<T&>(j < x ? a[j] : b[j - x]))); CHECK(mine.id() == model.front(), "window item"); model.pop_front(); }
                q.commit_read(k); taken += k; }
            windows++; break; }
        default: if constexpr (std::is_constructible_v<T, uint64_t>) { // construct in place from an argument is not supported through ChannelBase; only move a temporary
            if (cap > model.size()) { s.note("push(temporary) "); q.push(T(next)); model.push_back(next++); } } }
        CHECK(q.size() == model.size(), "size() %zu, %zu items inside", q.size(), model.size());
        maxn = std::max(maxn, model.size()); if (next > cap) wrapped = 1;
    }
    s.label(maxn == cap, "was full"); s.label(wrapped, "wrapped"); s.label(windows > 0, "windows"); s.label(!model.empty(), "died with items inside"); s.label(model.empty(), "died empty");
    s.nontrivial((next > 0 && !model.empty()) || wrapped);
    // every stored item owns its resource; popped slots may keep moved-from or copied leftovers
    if constexpr (K != KCopyOnly) CHECK(L->resources == model.size(), "%llu resources alive for %zu items inside", (unsigned long long)L->resources, model.size());
}
template <class T, Kind K, size_t N> static void one(pbt::Src& s, size_t cap) {
    Ledger led; L = &led;
    // warm up lazy statics outside the measured part
    { dro::SPSCQueue<char> w(8192); (void)w.is_doubly_mapped(); }
    {
        auto q = std::make_unique<dro::SPSCQueue<T, N>>(cap); history<T, K>(s, *q, false); s.label(N == 0 && q->is_doubly_mapped(), "mirrored");
    }
    CHECK(led.live.empty(), "%zu objects were never destroyed", led.live.size());
    CHECK(led.made == led.dead, "%llu objects constructed, %llu destroyed", (unsigned long long)led.made, (unsigned long long)led.dead);
    CHECK(led.resources == 0, "%llu resources leaked", (unsigned long long)led.resources);
}
PROPERTY(owning_elements, 20000, 300000, "one history of pushes (const, lvalue, moved), pops and windows on a channel of copyable, move-only or copy-only owners; heap, mirrored and fixed storage; non-trivial: the channel dies with items inside or the ring wrapped") {
    size_t small = 1 + s.below(12), big = 40 + s.below(60);   // 40 owners of 112 bytes and more: mirrored
    switch (s.below(9)) {
        case 0: one<Owner<true, 8>, KCopy, 0>(s, small); break;
        case 1: one<Owner<true, 100>, KCopy, 0>(s, big); break;
        case 2: one<MoveOnly<8>, KMove, 0>(s, small); break;
        case 3: one<MoveOnly<100>, KMove, 0>(s, big); break;
        case 4: one<Owner<true, 8>, KCopy, 3>(s, 0); break;
        case 5: one<MoveOnly<8>, KMove, 1>(s, 0); break;
        case 6: one<CopyOnly<8>, KCopyOnly, 0>(s, small); break;
        case 7: one<CopyOnly<240>, KCopyOnly, 0>(s, 16 + s.below(30)); break;
        default: one<CopyOnly<8>, KCopyOnly, 5>(s, 0); break;
    }
}
static bool same(const std::string& a, const std::string& b) { return a == b; }
static bool same(double a, double b) { return a == b; }
static bool same(const std::shared_ptr<size_t>& a, const std::shared_ptr<size_t>& b) { return *a == *b && a.use_count() == 1; }
// storage of the channel itself: bytes allocated before and after
PROPERTY(heap_balance, 6000, 60000, "channels of std::string and of plain types constructed, filled, partly drained and destroyed; allocated bytes compared; non-trivial: items inside at the end") {
    auto go = [&](auto make, auto item) {
        auto work = [&](bool count) -> size_t {
            size_t before = __sanitizer_get_current_allocated_bytes();
            size_t left = 0;
            { auto q = make(); size_t n = s.below(q->space() + 1); for (size_t i = 0; i < n; ++i) { if (!q->try_push(item(i))) FAIL_CASE("try_push failed with space"); }
              size_t m = s.below(n + 1); for (size_t i = 0; i < m; ++i) { auto v = item(0); if (!q->try_pop(v)) FAIL_CASE("try_pop failed with items"); CHECK(same(v, item(i)), "wrong item"); }
              left = n - m; s.note("%zu pushed %zu popped ", n, m); }
            if (count) CHECK(__sanitizer_get_current_allocated_bytes() == before, "%zu bytes allocated before, %zu after the channel died", before, (size_t)__sanitizer_get_current_allocated_bytes());
            return left;
        };
        (void)work(false);
        size_t l = work(true); s.nontrivial(l > 0);
    };
    size_t cap = s.flip() ? 1 + s.below(20) : 100 + s.below(300);
    auto str = [](size_t i) { return std::string(30 + i % 7, (char)('a' + i % 26)) + std::to_string(i); };
    auto num = [](size_t i) { return (double)i; };
    auto shr = [](size_t i) { return std::make_shared<size_t>(i); }; (void)shr;
    switch (s.below(4)) {
        case 0: go([&] { return std::make_unique<dro::SPSCQueue<std::string>>(cap); }, str); break;
        case 1: go([&] { return std::make_unique<dro::SPSCQueue<std::shared_ptr<size_t>>>(cap); }, shr); break;
        case 2: go([&] { return std::unique_ptr<cler::ChannelBase<double>>(new cler::Channel<double>(cap * 8)); }, num); break;
        default: go([&] { return std::make_unique<dro::SPSCQueue<std::string, 6>>(); }, str); break;
    }
}
