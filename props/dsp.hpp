// Driving one block through a generated history of feeding, draining and calling.
// Inputs are the block's own channels, filled by the harness; outputs are channels of a
// chosen logical capacity that the harness empties. While the block is inside procedure(),
// every access to an output may also run what the neighbours' threads could do meanwhile:
// add to an input, take from an output.
#pragma once
#include "pbt.hpp"
#include "cler.hpp"
#include <complex>
#include <functional>
#include <memory>
#include <string>
#include <vector>

namespace dsp {
using Res = cler::Result<cler::Empty, cler::Error>;
using cf = std::complex<float>;

struct InB {
    virtual ~InB() = default;
    virtual size_t left() = 0;      // items not fed yet
    virtual size_t level() = 0;     // items waiting in the channel
    virtual size_t room() = 0;
    virtual size_t feed(size_t n, unsigned how) = 0;
    size_t fed = 0;
    size_t consumed() { return fed - level(); }
};
template <class T> struct In : InB {
    cler::ChannelBase<T>* ch; std::vector<T> data;
    In(cler::ChannelBase<T>* c, std::vector<T> d) : ch(c), data(std::move(d)) {}
    size_t left() override { return data.size() - fed; }
    size_t level() override { return ch->size(); }
    size_t room() override { return ch->space(); }
    size_t feed(size_t n, unsigned how) override {
        n = std::min({n, left(), room()}); if (!n) return 0;
        const T* p = data.data() + fed;
        if (how == 1) { for (size_t i = 0; i < n; ++i) CHECK(ch->try_push(p[i]), "input channel with space refused an item"); }
        else CHECK(ch->writeN(p, n) == n, "input channel took fewer items than its space");
        fed += n; return n;
    }
};
struct OutB {
    virtual ~OutB() = default;
    virtual size_t level() = 0; virtual size_t room() = 0; virtual void drain(size_t n) = 0;
    virtual size_t count() = 0;      // items delivered so far, drained or not
    std::function<void()>* hook = nullptr;
    size_t asked = 0;                // items the block tried to write
    size_t rejected = 0;             // of those, not taken for lack of space
};
template <class T> struct Out : OutB, cler::ChannelBase<T> {
    cler::Channel<T> ch; size_t cap; std::vector<T> got; size_t window = 0; bool have_window = false;
    std::vector<char> guard;
    // real capacity is at least the contiguous-window minimum; `cap` is what the block sees
    explicit Out(size_t c) : ch(std::max<size_t>(c, cler::DOUBLY_MAPPED_MIN_SIZE / sizeof(T) + 1)), cap(c) {}
    void step() { if (hook && *hook) (*hook)(); }
    size_t level() override { return ch.size(); }
    size_t room() override { size_t l = ch.size(); return cap > l ? cap - l : 0; }
    size_t count() override { return got.size() + ch.size(); }
    void drain(size_t n) override {
        n = std::min(n, ch.size()); size_t o = got.size(); got.resize(o + n);
        if (n) CHECK(ch.readN(&got[o], n) == n, "output channel gave fewer items than its size");
    }
    size_t size() const override { return ch.size(); }
    size_t space() const override { const_cast<Out*>(this)->step(); return const_cast<Out*>(this)->room(); }
    void push(const T& v) override { step(); ++asked; CHECK(room() > 0, "the block pushed into an output without space (it would block for ever or overwrite)"); ch.push(v); }
    bool try_push(const T& v) override { step(); if (!room()) return false; ++asked; return ch.try_push(v); }
    void pop(T&) override { FAIL_CASE("the block read from its output"); }
    bool try_pop(T&) override { FAIL_CASE("the block read from its output"); }
    size_t readN(T*, size_t) override { FAIL_CASE("the block read from its output"); }
    size_t peek_read(const T*&, size_t&, const T*&, size_t&) override { FAIL_CASE("the block read from its output"); }
    void commit_read(size_t) override { FAIL_CASE("the block read from its output"); }
    std::pair<const T*, size_t> read_dbf() override { FAIL_CASE("the block read from its output"); }
    size_t writeN(const T* d, size_t n) override { step(); size_t k = std::min(n, room()); asked += n; rejected += n - k; return k ? ch.writeN(d, k) : 0; }
    size_t peek_write(T*& p1, size_t& s1, T*& p2, size_t& s2) override {
        step(); window = 0; have_window = true; size_t r = room(); if (r) ch.peek_write(p1, s1, p2, s2); else { p1 = p2 = nullptr; s1 = s2 = 0; }
        s1 = std::min(s1, r); s2 = std::min(s2, r - s1); if (!s2) p2 = nullptr; return window = s1 + s2;
    }
    std::pair<T*, size_t> write_dbf() override {
        step(); window = 0; have_window = true; size_t r = room(); if (!r) return {nullptr, 0};
        auto w = ch.write_dbf(); w.second = std::min(w.second, r); window = w.second; return w;
    }
    void commit_write(size_t n) override {
        step(); CHECK(have_window || !n, "the block committed output it never obtained a window for");
        CHECK(n <= window, "the block committed %zu items into an output window of %zu", n, window);
        window -= n; asked += n; ch.commit_write(n);
    }
};

struct Rig {
    pbt::Src& s; std::vector<InB*> ins; std::vector<OutB*> outs; std::function<Res()> call;
    // called after every call with the numbers consumed / produced in it
    std::function<void(const std::vector<size_t>&, const std::vector<size_t>&)> after;
    std::function<bool()> must_progress;   // default: every input has data and every output space
    bool concurrent = false;               // neighbours act while the block is in procedure()
    size_t calls = 0, split_calls = 0, full_calls = 0, hook_acts = 0;
    std::function<void()> hook;
    pbt::Bulk rng{0};
    explicit Rig(pbt::Src& s_) : s(s_) {}
    std::string state() {
        std::string r; char b[96];
        for (auto i : ins) { snprintf(b, sizeof b, " in[%zu waiting, %zu to come]", i->level(), i->left()); r += b; }
        for (auto o : outs) { snprintf(b, sizeof b, " out[%zu waiting, space %zu]", o->level(), o->room()); r += b; }
        return r;
    }
    bool one_call() {
        std::vector<size_t> c0, p0, c, p; bool ready = true;
        for (auto i : ins) { c0.push_back(i->consumed()); ready &= i->level() > 0; }
        for (auto o : outs) { p0.push_back(o->count()); ready &= o->room() > 0; full_calls += !o->room(); }
        if (must_progress) ready = must_progress();
        std::vector<size_t> lv; if (ready) { for (auto i : ins) lv.push_back(i->level()); for (auto o : outs) lv.push_back(o->room()); }
        // o->count() grows with writes only; i->consumed() with reads only, so hook actions do not disturb the deltas
        if (concurrent) for (auto o : outs) o->hook = &hook;
        Res r = call(); ++calls;
        for (auto o : outs) o->hook = nullptr;
        bool moved = false;
        for (size_t k = 0; k < ins.size(); ++k) { size_t n = ins[k]->consumed(); CHECK(n >= c0[k] && n <= ins[k]->fed, "input %zu: the block consumed items that were never fed (%zu of %zu)", k, n, ins[k]->fed); c.push_back(n - c0[k]); moved |= n != c0[k]; }
        for (size_t k = 0; k < outs.size(); ++k) { p.push_back(outs[k]->count() - p0[k]); moved |= p.back() != 0; }
        if (r.is_err()) CHECK(!cler::is_fatal(r.unwrap_err()), "the block stopped with '%s' on ordinary data", cler::to_str(r.unwrap_err()));
        if (ready && !moved) { std::string b; for (size_t k = 0; k < lv.size(); ++k) b += (k < ins.size() ? " waiting " : " space ") + std::to_string(lv[k]); FAIL_CASE("no progress although there were data and space:%s", b.c_str()); }
        if (after) after(c, p);
        return moved;
    }
    void random_side(pbt::Src& s) {
        size_t k = s.below(ins.size() + outs.size());
        if (k < ins.size()) ins[k]->feed(s.size(1, 6000), (unsigned)s.below(2));
        else outs[k - ins.size()]->drain(s.size(1, 6000));
    }
    // the generated history followed by a fair end phase in which everything must come through
    void run(unsigned avg, const std::function<bool()>& done) {
        rng = pbt::Bulk(s.subseed()); concurrent = s.chance(1, 2);
        hook = [this] {
            if (rng.below(3)) return; ++hook_acts;
            size_t k = rng.below(ins.size() + outs.size()), n = 1 + rng.below(rng.below(3) ? 40 : 3000);
            if (k < ins.size()) ins[k]->feed(n, 0); else outs[k - ins.size()]->drain(n);
        };
        s.note("history%s:", concurrent ? " (neighbours active during calls)" : "");
        while (s.more(avg)) {
            switch (s.weighted({3, 3, 2, 1})) {
            case 0: s.note(" call"); one_call(); break;
            case 1: if (!ins.empty()) { size_t k = s.below(ins.size()), n = s.size(1, 5000); size_t f = ins[k]->feed(n, (unsigned)s.below(2)); s.note(" feed%zu+%zu", k, f); break; } // fall through
            case 2: if (!outs.empty()) { size_t k = s.below(outs.size()), n = s.size(1, 5000); n = std::min(n, outs[k]->level()); outs[k]->drain(n); s.note(" drain%zu-%zu", k, n); } break;
            default: for (auto o : outs) o->drain(SIZE_MAX); s.note(" drainall"); break;
            }
        }
        size_t pf = 1 + s.size(0, 3000), pd = 1 + s.size(0, 3000); bool whole = s.chance(1, 3);
        s.note(" then rounds of feed %zu, drain %zu%s", pf, pd, whole ? " (at most; else everything)" : "");
        unsigned idle = 0;
        for (size_t round = 0; !done(); ++round) {
            bool moved = false;
            bool slow = whole && round < 60;
            for (auto i : ins) moved |= i->feed(slow ? pf : SIZE_MAX, round & 1) > 0;
            moved |= one_call();
            for (auto o : outs) { size_t l = o->level(); o->drain(slow ? pd : SIZE_MAX); moved |= o->level() != l; }
            idle = moved ? 0 : idle + 1;
            CHECK(idle < 4, "stuck with data left although everything was fed and drained:%s", state().c_str());
        }
        for (auto o : outs) o->drain(SIZE_MAX);
    }
    // one sample out of every output for one sample in from every input
    void one_to_one() {
        after = [this](const std::vector<size_t>& c, const std::vector<size_t>& p) {
            size_t n = c.empty() ? p[0] : c[0];
            for (auto x : c) CHECK(x == n, "one call consumed %zu items from one input and %zu from another", n, x);
            for (auto x : p) CHECK(x == n, "one call consumed %zu items and produced %zu", n, x);
            if (n) ++split_calls;
        };
    }
    bool all_in() { for (auto i : ins) if (i->left() || i->level()) return false; return true; }
};

// random signals
template <class T> inline T rnd(pbt::Bulk& r, int kind) {
    if constexpr (std::is_integral<T>::value) return kind == 0 ? (T)(r.below(200)) : (T)r.u64();
    else { double v = kind == 0 ? (double)(long)(r.below(2000)) - 1000 : kind == 1 ? r.real(-1, 1) : r.real(-1, 1) * std::pow(10.0, r.real(-6, 6)); return (T)v; }
}
template <> inline cf rnd<cf>(pbt::Bulk& r, int kind) { return {rnd<float>(r, kind), rnd<float>(r, kind)}; }
template <class T> inline std::vector<T> signal(pbt::Src& s, size_t n, int kind) { pbt::Bulk r(s.subseed()); std::vector<T> v(n); for (auto& x : v) x = rnd<T>(r, kind); return v; }
inline std::string str(double v) { char b[40]; snprintf(b, sizeof b, "%.9g", v); return b; }
inline std::string str(cf v) { char b[80]; snprintf(b, sizeof b, "(%.9g,%.9g)", v.real(), v.imag()); return b; }
}  // namespace dsp
