#define FG_WIDE 17
#include "fg_common.hpp"
using namespace fg;

struct Ctx { uint64_t magic = 0xC0FFEE; std::vector<void*> got; };
static Ctx* current; static uint64_t wrong, early; static Graph* graph;
static void on_term(void* p) { if (p != current || ((Ctx*)p)->magic != 0xC0FFEE) wrong++; else ((Ctx*)p)->got.push_back(p); if (graph && !graph->stopped()) early++; vs::point(); }

// a history of runs, stops, timed runs and destruction of one flowgraph
PROPERTY(histories, 6000, 100000, "a history of run / stop / run_for / destroy over one generated graph, blocks returning generated fatal and non-fatal results; non-trivial: a fatal result or at least two runs, with calls made") {
    Setup u; build(s, u, 400);
    Graph& g = *u.g; Ctx ctx; current = &ctx; graph = &g; wrong = early = 0;
    bool with_cb = !s.chance(1, 6);
    for (auto& n : g.nodes) if (s.chance(1, 2)) n->soft_pct = (unsigned)s.below(70);
    in_world(s, [&](vs::World& w, vs::Policy::Hooks& h) {
        if (with_cb) g.callback(on_term, &ctx);
        size_t ops = 1 + s.below(6), runs = 0, fatal_runs = 0; bool may_run = false; uint64_t fatal0 = 0, calls0 = 0;
        auto fatals = [&] { uint64_t f = 0; for (auto& n : g.nodes) f += n->fatals; return f; };
        auto calls = [&] { uint64_t f = 0; for (auto& n : g.nodes) f += n->calls; return f; };
        auto ended = [&](const char* what) {
            u.w.may_call = false;
            CHECK(h.live == 0, "%zu tasks still running after %s returned", h.live, what);
            for (auto& n : g.nodes) CHECK(!n->busy, "block %zu is still inside its procedure after %s returned", n->id, what);
            CHECK(g.stopped(), "not marked stopped after %s", what);
            bool f = fatals() > fatal0;
            CHECK(wrong == 0, "the termination callback got another context than the one given");
            CHECK(early == 0, "the termination callback is invoked while the flowgraph is not marked stopped");
            if (may_run) {
                if (f && with_cb) CHECK(ctx.got.size() >= 1, "a fatal result did not invoke the termination callback");
                CHECK(ctx.got.size() <= fatals() - fatal0, "%zu fatal results invoked the termination callback %zu times", (size_t)(fatals() - fatal0), ctx.got.size());
                if (!f) CHECK(ctx.got.empty(), "the termination callback was invoked without a fatal result");
                if (f) fatal_runs++;
            } else CHECK(ctx.got.empty(), "the termination callback was invoked although nothing ran");
            may_run = false; ctx.got.clear();
            for (auto& n : g.nodes) n->fatal_at = -1;
            uint64_t c = calls(); unsigned quiet = (unsigned)s.below(3);
            for (unsigned i = 0; i < quiet; ++i) w.sleep(20000);
            CHECK(calls() == c, "a block is called after %s returned", what);
        };
        auto maybe_fatal = [&](unsigned den) {
            fatal0 = fatals(); calls0 = calls();
            if (!s.chance(1, den)) return;
            size_t k = 1 + s.weighted({4, 2, 1});
            for (size_t i = 0; i < k; ++i) { Node& n = *g.nodes[s.below(g.nodes.size())]; n.fatal_at = (long)(n.calls + s.below(60)); n.fatal_code = s.pick({Error::TERM_EOFReached, Error::TERMINATE_FLOWGRAPH, Error::TERM_InvalidChannelIndex, Error::TERM_ProcedureError, Error::TERM_IOError}); s.note("(block %zu fatal) ", n.id); }
        };
        auto has_fatal = [&] { for (auto& n : g.nodes) if (n->fatal_at >= 0) return true; return false; };
        if (s.chance(1, 5)) { g.stop(); s.note("stop-first "); CHECK(h.live == 0, "tasks"); CHECK(ctx.got.empty(), "callback on stop"); }
        for (size_t op = 0; op < ops; ++op) {
            maybe_fatal(2);
            auto c = config(s, g.nodes.size()); c.num_workers += s.below(3);
            u.w.may_call = true; may_run = true; ++runs;
            if (s.chance(1, 3)) {       // timed
                uint64_t us = s.weighted({2, 3, 2, 1}) ; us = us == 0 ? s.below(5) : us == 1 ? 5 + s.below(300) : us == 2 ? 90000 + s.below(12000) : 100000 + s.below(150000);
                int unit = (int)s.below(3); if (unit == 1) us = us / 1000 * 1000;
                h.relax_ns = std::max<uint64_t>(100, us * 1000 / (30 + s.below(100)));      // keeps the number of steps down
                if (us > 500) for (auto& n : g.nodes) n->slow_ns = h.relax_ns / 2;
                s.note("run_for %llu us; ", (unsigned long long)us);
                uint64_t t0 = w.now_ns;
                g.run_for(us, unit, c);
                uint64_t t1 = w.now_ns;
                CHECK(t1 - t0 >= us * 1000 || fatals() > fatal0, "a timed run of %llu us returned after %llu ns", (unsigned long long)us, (unsigned long long)(t1 - t0));
                for (auto& n : g.nodes) n->slow_ns = 0;
                h.relax_ns = 300;
                ended("run_for");
                s.label(us > 100000, "long timed run"); s.label("timed run");
            } else {
                g.run(c, false);
                uint64_t wait = s.pick<uint64_t>({0, 1, 20, 200, 1500}); if (wait) wait = s.below(wait) + 1;
                bool until_fatal = has_fatal() && s.chance(2, 3);
                uint64_t p0 = w.points;
                for (uint64_t i = 0; until_fatal ? fatals() == fatal0 : w.points - p0 < wait; ++i) {
                    w.sleep(1000); if (w.points - p0 > 20000) w.now_ns += 100000;
                    bool f = fatals() > fatal0;
                    if (!f) { bool st = g.stopped(); CHECK(!st || fatals() > fatal0, "the flowgraph stopped although no block returned a fatal result"); }
                    CHECK(w.points - p0 < 600000, "a block that would return a fatal result is not called");
                }
                if (until_fatal) {
                    // everything has to come to a halt by itself
                    uint64_t q0 = w.points;
                    while (h.live) { w.sleep(1000); if (w.points - q0 > 20000) w.now_ns += 100000; CHECK(w.points - q0 < 400000, "%zu tasks keep running after a fatal result", h.live); }
                    CHECK(g.stopped(), "not marked stopped after a fatal result");
                    CHECK(!with_cb || ctx.got.size() >= 1, "a fatal result did not invoke the termination callback");
                    s.label("ended by itself");
                }
                bool direct = until_fatal && s.chance(1, 2);
                if (direct) { u.w.may_call = false; ended("the fatal result"); s.note("no stop; "); s.label("run again without stop after a fatal result"); }
                else switch (s.weighted({5, 2, 2})) {
                case 0: g.stop(); ended("stop"); s.note("stop; "); break;
                case 1: g.stop(); ended("stop"); g.stop(); g.stop(); CHECK(g.stopped() && h.live == 0 && ctx.got.empty(), "a second stop did something"); s.note("stop stop; "); s.label("stopped twice"); break;
                default: {
                    g.destroy(); u.w.may_call = false; s.note("destroy; "); s.label("destroyed while running");
                    CHECK(h.live == 0, "%zu tasks still running after the flowgraph was destroyed", h.live);
                    bool f = fatals() > fatal0;
                    CHECK(wrong == 0 && (f ? !with_cb || ctx.got.size() >= 1 : ctx.got.empty()), "termination callback: %zu invocations, %s fatal result", ctx.got.size(), f ? "a" : "no");
                    ctx.got.clear(); may_run = false; if (f) fatal_runs++;
                    for (auto& n : g.nodes) { n->fatal_at = -1; CHECK(!n->busy, "inside"); }
                    w.sleep(50000); g.make(); if (with_cb) g.callback(on_term, &ctx);
                } }
            }
            CHECK(g.stats(0).total_runtime_s >= 0, "time runs backwards");
        }
        g.destroy();
        CHECK(h.live == 0, "tasks left");
        s.nontrivial((fatal_runs || runs >= 2) && calls() > 0); s.label(fatal_runs > 0, "fatal result"); s.label(runs > 2, "many runs"); s.label(!with_cb, "no callback set");
    });
}
// every non-fatal error, alone and for long
PROPERTY(soft_results, 600, 8000, "a block returns one generated non-fatal error for ever while the others work; non-trivial: it was returned at least 10 times") {
    Setup u; build(s, u, 100); Graph& g = *u.g; Ctx ctx; current = &ctx; graph = &g; wrong = early = 0;
    size_t who = s.below(g.nodes.size());
    Error e = s.pick({Error::Unknown, Error::NotEnoughSamples, Error::NotEnoughSpace, Error::NotEnoughSpaceOrSamples, Error::ProcedureError, Error::BadData});
    g.nodes[who]->always_err = e;
    in_world(s, [&](vs::World& w, vs::Policy::Hooks& h) {
        g.callback(on_term, &ctx);
        auto c = config(s, g.nodes.size()); u.w.may_call = true; g.run(c, false);
        uint64_t p0 = w.points;
        while (g.nodes[who]->calls < 30) { w.sleep(3000); if (w.points - p0 > 20000) w.now_ns += 100000; CHECK(!g.stopped(), "error %d stopped the flowgraph", (int)e); CHECK(w.points - p0 < 400000, "a block returning error %d is not called any more", (int)e); }
        CHECK(ctx.got.empty(), "error %d invoked the termination callback", (int)e);
        g.stop(); u.w.may_call = false; CHECK(h.live == 0, "tasks left"); CHECK(ctx.got.empty() && g.stopped(), "stop");
        s.nontrivial(g.nodes[who]->calls >= 10); s.note("block %zu returns %d", who, (int)e);
    });
}
// the system refuses a task
PROPERTY(refused_task, 2000, 30000, "runs of one generated graph of which some find that the system refuses a task, the first or a later one, then stop, destroy or run again; non-trivial: a task was refused after others had been created") {
    Setup u; build(s, u, 200); Graph& g = *u.g; Ctx ctx; current = &ctx; graph = &g; wrong = early = 0; bool later = false;
    in_world(s, [&](vs::World& w, vs::Policy::Hooks& h) {
        g.callback(on_term, &ctx); size_t runs = 1 + s.below(4); auto calls = [&] { uint64_t f = 0; for (auto& n : g.nodes) f += n->calls; return f; };
        for (size_t r = 0; r < runs; ++r) {
            auto c = config(s, g.nodes.size()); u.w.may_call = true; size_t at = s.chance(2, 3) ? s.below(g.nodes.size() + 1) : SIZE_MAX; h.refuse = at; size_t made = h.created; bool refused = false;
            bool timed = s.chance(1, 3); s.note("%s, task %zd refused: ", timed ? "timed run" : "run", (ssize_t)at);
            try { if (timed) g.run_for(50, 0, c); else { g.run(c, false); w.sleep(1000 * s.below(30)); } } catch (const std::system_error&) { refused = true; later |= at > 0; w.sleep(1000 * s.below(30)); }
            CHECK(refused || at == SIZE_MAX || h.created - made <= at, "the refusal went unnoticed"); h.refuse = SIZE_MAX; s.note("%s ", refused ? "refused" : "runs");
            bool gone = s.chance(1, 3), again = refused && !gone && s.chance(1, 3);
            if (gone) { g.destroy(); s.note("destroy; "); } else if (!again) { g.stop(); s.note("stop; "); CHECK(g.stopped(), "not marked stopped after stop"); }
            if (again) continue;
            u.w.may_call = false; CHECK(h.live == 0, "%zu tasks still running after %s returned", h.live, gone ? "destruction" : "stop"); uint64_t k = calls(); w.sleep(20000); CHECK(calls() == k, "a block is called after the end"); CHECK(ctx.got.empty(), "the termination callback was invoked without a fatal result");
            if (gone) { g.make(); g.callback(on_term, &ctx); }
        }
        g.destroy(); CHECK(h.live == 0, "tasks left");
    });
    s.nontrivial(later); s.label(later, "refused after others");
}
