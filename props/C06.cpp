#define FG_WIDE 17
#include "fg_common.hpp"
using namespace fg;

static void check_prefix(Graph& g, bool complete) {
    auto ref = g.reference();
    for (size_t n = 0; n < g.nodes.size(); ++n) {
        Node& nd = *g.nodes[n];
        if (nd.nout || !nd.nin) { CHECK(nd.done <= ref[n].size() || (!nd.nin && !nd.nout), "block %zu processed %llu items, its input has %zu", n, (unsigned long long)nd.done, ref[n].size()); continue; }
        CHECK(nd.sunk.size() <= ref[n].size(), "sink %zu got %zu items, the sequential run delivers %zu", n, nd.sunk.size(), ref[n].size());
        for (size_t i = 0; i < nd.sunk.size(); ++i) CHECK(nd.sunk[i] == ref[n][i], "item %zu at sink %zu differs from the sequential run", i, n);
        if (complete) CHECK(nd.sunk.size() == ref[n].size(), "sink %zu got %zu of %zu items", n, nd.sunk.size(), ref[n].size());
    }
}
static bool complete(Graph& g, const std::vector<std::vector<uint32_t>>& ref) {
    for (size_t n = 0; n < g.nodes.size(); ++n) { Node& nd = *g.nodes[n]; if (nd.nin && !nd.nout && nd.sunk.size() < ref[n].size()) return false; }
    return true;
}
PROPERTY(streams, 7000, 120000, "a generated graph (shape, channel sizes, per-call behaviour of each block) run to completion under a generated configuration and schedule, sometimes stopped half-way and continued under another one; non-trivial: items crossed a channel while at least 20 task switches happened") {
    Setup u; build(s, u, 120);
    Graph& g = *u.g;
    auto ref = g.reference();
    in_world(s, [&](vs::World& w, vs::Policy::Hooks& h) {
        size_t legs = 1 + s.weighted({3, 1, 1}); 
        for (size_t leg = 0; leg < legs; ++leg) {
            auto c = config(s, g.nodes.size());
            bool last = leg + 1 == legs;
            for (auto& n : g.nodes) n->run_ok = n->run_err = 0;
            uint64_t partway = last ? UINT64_MAX : s.below(3000);
            u.w.may_call = true;
            g.run(c, false);
            CHECK(!g.stopped(), "a flowgraph that was just run says it is stopped");
            uint64_t p0 = w.points; uint64_t seen = 0, seen_at = w.points, seen_ns = w.now_ns;
            auto all_called = [&] { for (auto& n : g.nodes) if (n->run_ok + n->run_err < 3) return false; return true; };
            while (w.points - p0 < partway && !(complete(g, ref) && all_called())) {
                w.sleep(2000);
                uint64_t d = 0; for (auto& n : g.nodes) d += n->done; for (auto& n : g.nodes) d += n->run_ok + n->run_err < 3 ? n->run_ok + n->run_err : 3;
                if (d != seen) { seen = d; seen_at = w.points; seen_ns = w.now_ns; }
                if (w.points - seen_at > 10000) w.now_ns += 100000;     // a slow machine: time flies
                CHECK(w.points - seen_at < 100000 || w.now_ns - seen_ns < 2000000000ull, "the flowgraph makes no progress: %s", complete(g, ref) ? "a block is never called" : "items do not arrive");
            }
            CHECK(!g.stopped(), "the flowgraph stopped by itself although no block returned a fatal result");
            g.stop();
            u.w.may_call = false;
            s.note("leg of %llu points; ", (unsigned long long)(w.points - p0));
        }
        uint64_t items = 0; for (auto& n : g.nodes) items += n->sunk.size();
        s.nontrivial(items > 0 && w.switches >= 20);
        s.label(legs > 1, "continued under another configuration"); s.label(h.created < g.nodes.size() * legs, "several blocks per task");
        check_prefix(g, true);
        u.w.may_call = false; g.destroy();
        CHECK(h.live == 0, "%zu tasks are still running", h.live);
    });
}
PROPERTY(everyone_keeps_being_called, 1500, 20000, "a running graph is observed in the middle: in every further window of fair scheduling each block is called again; non-trivial: at least 3 blocks") {
    Setup u; build(s, u, 40); Graph& g = *u.g;
    in_world(s, [&](vs::World& w, vs::Policy::Hooks&) {
        auto c = config(s, g.nodes.size());
        u.w.may_call = true; g.run(c, false);
        size_t windows = 2 + s.below(5);
        for (size_t k = 0; k < windows; ++k) {
            std::vector<uint64_t> before; for (auto& n : g.nodes) before.push_back(n->calls);
            uint64_t p0 = w.points;
            auto all = [&] { for (size_t i = 0; i < g.nodes.size(); ++i) if (g.nodes[i]->calls == before[i]) return false; return true; };
            while (!all()) {
                w.sleep(1000);
                if (w.points - p0 > 20000) w.now_ns += 100000;
                for (size_t i = 0; i < g.nodes.size(); ++i) CHECK(w.points - p0 < 300000 || g.nodes[i]->calls > before[i], "block %zu is not called any more while the flowgraph runs", i);
            }
            w.sleep(s.below(40000));
        }
        g.stop(); u.w.may_call = false;
        check_prefix(g, false);
        g.destroy();
        s.nontrivial(g.nodes.size() >= 3); s.label(u.k == 6, "single block");
    });
}
