// Real threads: the desktop task layer under ThreadSanitizer.
#include "pbt.hpp"
#include <atomic>
#include <memory>
#include <vector>
#include "cler.hpp"
#include "cler_utils.hpp"
#include "task_policies/cler_desktop_tpolicy.hpp"
using cler::Error; using cler::Empty; using cler::Result;
using Ch = cler::Channel<uint32_t>; using Cb = cler::ChannelBase<uint32_t>;

struct Node : cler::BlockBase {
    std::vector<std::unique_ptr<Ch>> in; size_t nout = 0; uint64_t limit = 0; unsigned burst = 1; pbt::Bulk r{0};
    uint64_t st = 0, pos = 0; std::vector<uint32_t> sunk; size_t calls = 0, oks = 0, errs = 0;   // plain: a second task in here is a race
    std::atomic<uint64_t> reached{0}; std::atomic<size_t> entered{0}; long fatal_at = -1;
    explicit Node(const char* n) : BlockBase(n) {}
    template <class... O> Result<Empty, Error> procedure(O*... outs) {
        Cb* o[sizeof...(O) + 1] = {outs..., nullptr};
        ++calls; entered.fetch_add(1, std::memory_order_relaxed);
        auto x = body(o, sizeof...(O));
        (x.is_ok() ? oks : errs)++;
        return x;
    }
    Result<Empty, Error> body(Cb** o, size_t n) {
        if (fatal_at >= 0 && (long)calls > fatal_at) return Error::TERM_ProcedureError;
        size_t avail = in.empty() ? (size_t)(limit - pos) : SIZE_MAX, space = SIZE_MAX;
        for (auto& c : in) avail = std::min(avail, c->size());
        for (size_t i = 0; i < n; ++i) space = std::min(space, o[i]->space());
        if (!avail) return Error::NotEnoughSamples;
        if (!space) return Error::NotEnoughSpace;
        size_t k = std::min({avail, space, (size_t)1 + (size_t)r.below(burst)});
        std::vector<uint32_t> y(k, 17);
        for (auto& c : in) {
            const uint32_t *a, *b; size_t p, q; std::vector<uint32_t> v(k);
            if (r.below(2)) { c->peek_read(a, p, b, q); for (size_t i = 0; i < k; ++i) v[i] = i < p ? a[i] : b[i - p]; c->commit_read(k); }
            else c->readN(v.data(), k);
            for (size_t i = 0; i < k; ++i) y[i] = y[i] * 31 + v[i];
        }
        for (size_t i = 0; i < k; ++i) { st = st * 6364136223846793005ull + y[i] + pos++; y[i] = (uint32_t)(st >> 29); if (n == 0) sunk.push_back(y[i]); }
        for (size_t j = 0; j < n; ++j) {
            if (r.below(2)) o[j]->writeN(y.data(), k); else for (auto v : y) o[j]->push(v);
        }
        reached.store(pos, std::memory_order_relaxed);
        return Empty{};
    }
};
static std::vector<uint32_t> expect(uint64_t& st, const std::vector<const std::vector<uint32_t>*>& in, uint64_t n) {
    std::vector<uint32_t> out;
    for (uint64_t e = 0; e < n; ++e) { uint32_t y = 17; for (auto* v : in) y = y * 31 + (*v)[e]; st = st * 6364136223846793005ull + y + e; out.push_back((uint32_t)(st >> 29)); }
    return out;
}
static void nap(unsigned us) { timespec t{0, (long)us * 1000}; nanosleep(&t, nullptr); }
struct CbCtx { int x = 0; };
static void on_term(void* p) { ((CbCtx*)p)->x++; }

// source -> (a, b) -> join -> sink
PROPERTY_T(threads, 160, 3000, 20, "a five block diamond on real threads under ThreadSanitizer, run to the end with generated configuration (sometimes stopped and continued, or ended by a fatal result); non-trivial: at least 200 items") {
    Node src("src"), a("a"), b("b"), join("join"), sink("sink"); Node* all[] = {&src, &a, &b, &join, &sink};
    auto add = [&](Node& n) { n.in.push_back(std::make_unique<Ch>(s.chance(1, 4) ? 2000 : 1 + s.below(30))); return n.in.back().get(); };
    Ch *ca = add(a), *cb = add(b), *j0 = add(join), *j1 = add(join), *cs = add(sink);
    for (auto* n : all) { n->burst = 1 + (unsigned)s.below(40); n->r = pbt::Bulk(s.subseed()); }
    src.limit = 50 + s.below(2500);
    bool fatal = s.chance(1, 3); size_t who = s.below(5); if (fatal) all[who]->fatal_at = (long)s.below(60);
    CbCtx ctx;
    cler::FlowGraph<cler::DesktopTaskPolicy, cler::BlockRunner<Node, Cb, Cb>, cler::BlockRunner<Node, Cb>, cler::BlockRunner<Node, Cb>, cler::BlockRunner<Node, Cb>, cler::BlockRunner<Node>>
        g(cler::BlockRunner<Node, Cb, Cb>(&src, ca, cb), cler::BlockRunner<Node, Cb>(&a, j0), cler::BlockRunner<Node, Cb>(&b, j1), cler::BlockRunner<Node, Cb>(&join, cs), cler::BlockRunner<Node>(&sink));
    g.set_on_err_terminate_cb(on_term, &ctx);
    size_t legs = 1 + s.below(3); double t0 = pbt::now_s();
    for (size_t leg = 0; leg < legs; ++leg) {
        cler::FlowGraphConfig c; c.scheduler = s.flip() ? cler::SchedulerType::FixedThreadPool : cler::SchedulerType::ThreadPerBlock;
        c.num_workers = 2 + s.below(4); c.adaptive_sleep = s.chance(1, 3); c.adaptive_sleep_max_us = 200; c.collect_detailed_stats = s.flip(); c.max_calls_per_tick = s.pick<size_t>({4, 1, 16}); c.pin_workers = s.chance(1, 4);
        bool last = leg + 1 == legs;
        size_t before[5], ok0[5], err0[5]; for (int i = 0; i < 5; ++i) { before[i] = all[i]->calls; ok0[i] = all[i]->oks; err0[i] = all[i]->errs; }
        s.note("{%s %zu%s} ", c.scheduler == cler::SchedulerType::FixedThreadPool ? "pool" : "tpb", c.num_workers, c.collect_detailed_stats ? " stats" : "");
        if (!last && s.chance(1, 3)) { double q0 = pbt::now_s(); unsigned us = 200 + (unsigned)s.below(3000); g.run_for(std::chrono::microseconds(us), c); CHECK(g.is_stopped(), "not stopped after a timed run"); CHECK(fatal || (pbt::now_s() - q0) * 1e6 >= us * 0.99, "a timed run of %u us ended after %.0f", us, (pbt::now_s() - q0) * 1e6); }
        else {
            g.run(c);
            double limit = last ? 30 : 0.0001 * (double)s.below(30); double q0 = pbt::now_s();
            while (pbt::now_s() - q0 < limit && !g.is_stopped() && !(last && sink.reached.load(std::memory_order_relaxed) >= src.limit)) nap(50);
            CHECK(!last || fatal || sink.reached >= src.limit, "items do not arrive");
            if (last && fatal) { while (!g.is_stopped() && pbt::now_s() - q0 < 30) nap(50); CHECK(g.is_stopped(), "a fatal result does not stop the flowgraph"); }
            g.stop();
        }
        size_t e0[5]; for (int i = 0; i < 5; ++i) e0[i] = all[i]->entered.load(std::memory_order_relaxed);
        if (s.chance(1, 4)) nap(300);
        for (int i = 0; i < 5; ++i) {
            if (WHICH == 7) CHECK(all[i]->calls == e0[i], "block %d is called after stop returned", i);     // plain read: a race if its task is not joined
            if (WHICH == 8 && c.collect_detailed_stats) CHECK(g.stats()[i].successful_procedures == all[i]->oks - ok0[i] && g.stats()[i].failed_procedures == all[i]->errs - err0[i], "block %d: statistics say %zu/%zu, %zu/%zu calls were made", i, g.stats()[i].successful_procedures, g.stats()[i].failed_procedures, all[i]->oks - ok0[i], all[i]->errs - err0[i]);
        }
    }
    (void)t0;
    uint64_t q[5] = {}; auto e0 = expect(q[0], {}, src.limit); auto ea = expect(q[1], {&e0}, src.limit), eb = expect(q[2], {&e0}, src.limit); auto ej = expect(q[3], {&ea, &eb}, src.limit); auto es = expect(q[4], {&ej}, src.limit);
    CHECK(sink.sunk.size() <= es.size() && (fatal || sink.sunk.size() == es.size()), "%zu items at the sink, %zu expected", sink.sunk.size(), es.size());
    for (size_t i = 0; i < sink.sunk.size(); ++i) CHECK(sink.sunk[i] == es[i], "item %zu differs from the sequential run", i);
    if (WHICH == 7) CHECK(fatal ? ctx.x >= 1 : ctx.x == 0, "the termination callback was called %d times", ctx.x);
    s.nontrivial(src.limit >= 200); s.label(fatal, "ended by a fatal result"); s.label(legs > 1, "run again");
}
