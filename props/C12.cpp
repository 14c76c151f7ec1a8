#include "dsp.hpp"
#include <cstring>
#include <thread>
#include "desktop_blocks/utils/fanout.hpp"
#include "desktop_blocks/utils/throughput.hpp"
#include "desktop_blocks/utils/throttle.hpp"
#include "desktop_blocks/sinks/sink_null.hpp"
using namespace dsp;

struct Odd { uint32_t a, b, c; };   // a size that does not divide a page
template <class T> static T item(uint64_t id) { T t; unsigned char* p = (unsigned char*)&t; uint64_t x = id; for (size_t i = 0; i < sizeof(T); ++i) { if (i % 8 == 0) x = pbt::splitmix(x), x ^= id; p[i] = (unsigned char)(x >> (8 * (i % 8))); } return t; }
template <class T> static std::vector<T> items(size_t n) { std::vector<T> v(n); for (size_t i = 0; i < n; ++i) v[i] = item<T>(i * 2654435761u + 7); return v; }
template <class T> static void same(const std::vector<T>& got, const std::vector<T>& want, const char* where) {
    size_t m = std::min(got.size(), want.size());
    for (size_t i = 0; i < m; ++i) CHECK(!memcmp(&got[i], &want[i], sizeof(T)), "%s: item %zu of %zu is not the one that was fed", where, i, want.size());
    CHECK(got.size() == want.size(), "%s: %zu items arrived, %zu were fed", where, got.size(), want.size());
}

template <class T> static void fanout(pbt::Src& s) {
    size_t page = cler::DOUBLY_MAPPED_MIN_SIZE / sizeof(T) + 1, k = 1 + s.below(5), n = s.size(1, 9000), buf = s.chance(1, 2) ? 0 : page + s.size(0, 3000);
    std::vector<std::unique_ptr<Out<T>>> o; Rig r(s); s.note("fan-out to %zu outputs (", k);
    for (size_t i = 0; i < k; ++i) { o.emplace_back(new Out<T>(s.size(1, 5000))); r.outs.push_back(o[i].get()); s.note("%zu ", o[i]->cap); }
    s.note("items), %zu items; ", n);
    FanoutBlock<T> b("f", k, buf); auto x = items<T>(n); In<T> in(&b.in, x); r.ins = {&in};
    r.call = [&]() -> Res {
        cler::ChannelBase<T>* p[5] = {}; for (size_t i = 0; i < k; ++i) p[i] = o[i].get();
        switch (k) { case 1: return b.procedure(p[0]); case 2: return b.procedure(p[0], p[1]); case 3: return b.procedure(p[0], p[1], p[2]); case 4: return b.procedure(p[0], p[1], p[2], p[3]); default: return b.procedure(p[0], p[1], p[2], p[3], p[4]); }
    };
    r.one_to_one(); r.run(25, [&] { return r.all_in(); });
    for (size_t i = 0; i < k; ++i) { char w[40]; snprintf(w, sizeof w, "output %zu of %zu", i, k); same(o[i]->got, x, w); }
    s.nontrivial(r.split_calls >= 2 && k >= 2); s.label(r.full_calls > 0, "an output full at a call"); s.label(r.hook_acts > 0, "neighbours active during a call");
}
PROPERTY(fanout_delivery, 6000, 100000, "1 to 5 outputs of generated capacities, a stream of numbered items, generated feeding, draining and calling; every output must receive every item in order and each call move equally many everywhere; non-trivial: at least 2 outputs and 2 moving calls") {
    switch (s.below(3)) { case 0: fanout<uint32_t>(s); break; case 1: fanout<Odd>(s); break; default: fanout<cf>(s); }
}

template <class T> static void through(pbt::Src& s) {
    size_t page = cler::DOUBLY_MAPPED_MIN_SIZE / sizeof(T) + 1, n = s.size(1, 20000), buf = s.chance(1, 2) ? 0 : page + s.size(0, 3000);
    Out<T> o(s.size(1, 5000)); ThroughputBlock<T> b("t", buf); auto x = items<T>(n); In<T> in(&b.in, x); Rig r(s);
    s.note("throughput meter, %zu items, out capacity %zu; ", n, o.cap);
    r.ins = {&in}; r.outs = {&o}; r.call = [&] { return b.procedure(&o); }; r.one_to_one(); auto base = r.after; size_t total = 0;
    r.after = [&](const std::vector<size_t>& c, const std::vector<size_t>& p) { base(c, p); total += c[0]; CHECK(b.samples_passed() == total, "the meter says %zu after %zu items passed", b.samples_passed(), total); };
    CHECK(b.samples_passed() == 0, "the meter starts at %zu", b.samples_passed());
    r.run(25, [&] { return r.all_in(); }); same(o.got, x, "output"); CHECK(b.samples_passed() == n, "the meter says %zu after %zu items", b.samples_passed(), n);
    s.nontrivial(r.split_calls >= 2); s.label(r.full_calls > 0, "output full at a call");
}
PROPERTY(throughput_meter, 5000, 100000, "numbered items through the meter under a generated history; unchanged, in order, and counted exactly after every call; non-trivial: at least 2 moving calls") {
    switch (s.below(3)) { case 0: through<uint32_t>(s); break; case 1: through<Odd>(s); break; default: through<cf>(s); }
}

// observers in the styles a user may write them
template <class T> struct Watch {
    std::vector<T> got; pbt::Bulk r{1}; int style = 0; size_t calls = 0;
    static size_t on(cler::Channel<T>* in, void* ctx) {
        auto* w = (Watch*)ctx; ++w->calls; const T *a, *b; size_t x, y;
        switch (w->style) {
        case 0: { size_t n = in->peek_read(a, x, b, y); w->got.insert(w->got.end(), a, a + x); w->got.insert(w->got.end(), b, b + y); return n; }
        case 1: { size_t n = in->peek_read(a, x, b, y), k = w->r.below(n + 1); if (k > x) { w->got.insert(w->got.end(), a, a + x); w->got.insert(w->got.end(), b, b + (k - x)); } else w->got.insert(w->got.end(), a, a + k); return k; }
        case 2: { size_t n = in->size(), o = w->got.size(); w->got.resize(o + n); in->readN(w->got.data() + o, n); return 0; }
        case 3: { auto d = in->read_dbf(); w->got.insert(w->got.end(), d.first, d.first + d.second); return d.second; }
        default: { T t; size_t k = w->r.below(5); while (k-- && in->try_pop(t)) w->got.push_back(t); return 0; }
        }
    }
};
template <class T> static void sink(pbt::Src& s) {
    size_t page = cler::DOUBLY_MAPPED_MIN_SIZE / sizeof(T) + 1, n = s.size(1, 9000); bool obs = s.chance(3, 4); Watch<T> w; w.style = (int)s.below(5); w.r = pbt::Bulk(s.subseed());
    size_t buf = s.chance(1, 2) ? 0 : w.style == 3 ? page + s.size(0, 3000) : s.size(1, 3000); int calls0 = 0;
    SinkNullBlock<T> b("n", obs ? &Watch<T>::on : nullptr, obs ? &w : nullptr, buf); auto x = items<T>(n); In<T> in(&b.in, x);
    s.note("null sink, %s %d, buffer %zu, %zu items:", obs ? "observer style" : "no observer", w.style, buf, n); size_t moves = 0;
    auto call = [&] {
        size_t l = b.in.size(), c0 = w.calls; auto r = b.procedure(); ++calls0;
        CHECK(!r.is_err() || !cler::is_fatal(r.unwrap_err()), "the sink stopped with an error"); moves += b.in.size() < l;
        if (obs) { CHECK(w.calls == c0 + 1 || (!l && w.calls == c0), "the observer was called %zu times in one call", w.calls - c0); CHECK(in.consumed() == w.got.size(), "%zu items consumed, %zu seen by the observer", in.consumed(), w.got.size()); }
        else CHECK(b.in.size() == 0, "%zu of %zu items left in the sink without an observer", b.in.size(), l);
    };
    unsigned steps = 0;
    while (s.more(20)) { if (s.flip()) { size_t k = s.size(1, 4000); k = in.feed(k, (unsigned)s.below(2)); s.note(" feed%zu", k); } else { s.note(" call"); call(); } ++steps; }
    size_t piece = s.chance(1, 2) ? s.size(1, 3000) : SIZE_MAX;
    for (size_t i = 0; in.left() || b.in.size(); ++i) { in.feed(i < 50 ? piece : SIZE_MAX, 0); call(); CHECK(i < 100000, "the sink does not empty"); }
    if (obs) same(w.got, x, "observer");
    s.nontrivial(moves >= 2); s.label(obs, "with an observer"); s.label(!obs, "without an observer");
}
PROPERTY(null_sink, 6000, 100000, "a null sink without observer or with one of five observer styles (whole window, random part of it, reading itself, contiguous window, popping a few), numbered items, generated feeding and calling; non-trivial: at least 2 calls consumed something") {
    switch (s.below(3)) { case 0: sink<uint32_t>(s); break; case 1: sink<Odd>(s); break; default: sink<cf>(s); }
}

PROPERTY(throttle_content, 3000, 40000, "numbered items through a throttle of a rate too high to wait for, under a generated history; non-trivial: at least 2 moving calls and a capacity reached") {
    size_t n = s.size(1, 400), buf = s.chance(1, 2) ? 1024 : s.size(1, 300); Out<uint32_t> o(s.size(1, 400)); ThrottleBlock<uint32_t> b("t", 100000000 + s.below(1000000000), buf);
    s.note("throttle, %zu items, buffer %zu, out capacity %zu; ", n, buf, o.cap);
    auto x = items<uint32_t>(n); In<uint32_t> in(&b.in, x); Rig r(s); r.ins = {&in}; r.outs = {&o}; r.call = [&] { return b.procedure(&o); }; r.one_to_one();
    r.run(30, [&] { return r.all_in(); }); same(o.got, x, "output");
    s.nontrivial(r.split_calls >= 2 && (r.full_calls || n > buf)); s.label(r.full_calls > 0, "output full at a call");
}
PROPERTY_T(throttle_rate, 500, 6000, 3, "a rate of 500 to 20000 items/s, items supplied in bursts with pauses of up to several intervals before and between them, real time; the m-th item after any other passes at least m-1 intervals later (one item of start-up or catch-up allowance); non-trivial: a pause longer than two intervals followed by a burst of at least 4") {
    size_t sps = (size_t)s.range(500, 20000); double I = 1.0 / (double)sps; std::vector<double> t; struct Tap : Out<uint32_t> { using Out::Out; std::vector<double>* t; void rec() { t->push_back(std::chrono::duration<double>(std::chrono::high_resolution_clock::now().time_since_epoch()).count()); }
        void push(const uint32_t& v) override { rec(); Out::push(v); } bool try_push(const uint32_t& v) override { bool k = Out::try_push(v); if (k) rec(); return k; } size_t writeN(const uint32_t* d, size_t n) override { size_t k = Out::writeN(d, n); for (size_t i = 0; i < k; ++i) rec(); return k; } void commit_write(size_t n) override { for (size_t i = 0; i < n; ++i) rec(); Out::commit_write(n); } };
    Tap o(4000); o.t = &t; ThrottleBlock<uint32_t> b("t", sps); uint32_t id = 0, sent = 0; double budget = 0.04; bool good = false; s.note("%zu items/s:", sps);
    do {
        double pause = s.chance(1, 2) ? 0 : std::min(0.008, I * s.real(0, 9)); size_t burst = 1 + s.below(12); budget -= pause + burst * I;
        if (pause > 0) std::this_thread::sleep_for(std::chrono::duration<double>(pause));
        for (size_t i = 0; i < burst; ++i) { b.in.push(id++); }
        while (b.in.size()) { size_t l = o.count(); auto r = b.procedure(&o); CHECK(!r.is_err() && o.count() > l, "no progress"); }
        sent += burst; good |= pause > 2 * I && burst >= 4; s.note(" pause %.0f us, %zu items", pause * 1e6, burst);
    } while (budget > 0 && s.more(6));
    o.drain(SIZE_MAX); CHECK(o.got.size() == sent && t.size() == sent, "%u items in, %zu out", sent, o.got.size());
    for (size_t i = 0; i < sent; ++i) CHECK(o.got[i] == i, "item %zu is not the one fed", i);
    double latest = -1e300;   // max over i of (t_i - i*I): t_j - j*I must not fall below it by more than one interval
    for (size_t j = 0; j < sent; ++j) {
        double v = t[j] - (double)j * (I - 2e-9);   // the clock counts whole nanoseconds
        CHECK(v >= latest - I - 2e-6, "item %zu passed %.0f us ahead of the rate of %zu items/s", j, (latest - I - v) * 1e6, sps);
        latest = std::max(latest, v);
    }
    s.nontrivial(good);
}
PROPERTY(throttle_zero_rate, 50, 200, "a rate of zero is refused; non-trivial: every case") { bool thrown = false; s.below(2); try { ThrottleBlock<int> b("t", 0); } catch (const std::exception&) { thrown = true; } CHECK(thrown, "a throttle of rate 0 was accepted"); s.note("rate 0"); s.nontrivial(); }
